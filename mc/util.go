package main

import flatbuffers "github.com/google/flatbuffers/go"

func unsafePos(p uint32) flatbuffers.UOffsetT { return flatbuffers.UOffsetT(p) }
