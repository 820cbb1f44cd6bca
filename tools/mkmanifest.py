#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
FAULT={"P08","P09","P10"}
T={
"P01":"exhaustive enumeration of files (layouts, feature counts, sizes, geometries, index kinds) through every writer/reader path pair of the real code, against an independent encoder and decoder",
"P02":"exhaustive enumeration of reference lists, tree shapes and queries on the real tree, against linear scan",
"P03":"exhaustive enumeration of indexes, queries, start positions and read deliveries on the real streaming search (deviation-bounded)",
"P04":"exhaustive enumeration of tree shapes and read deliveries, against an independent serializer",
"P05":"exhaustive enumeration of indexed files, queries, data orders and preceding call histories on the real file reader, against linear scan",
"P06":"explicit enumeration of all reader call sequences to a depth in lockstep with a protocol model, the real reader's answers compared at every transition",
"P07":"explicit enumeration of all writer call sequences to a depth in lockstep with a protocol model, output and return values compared at every transition",
"P08":"fault enumeration: every stream operation of every bounded call history gets every legal short/empty/EOF-with-data delivery or failure (deviation-bounded), against a twin on a healthy stream",
"P09":"crash-point enumeration: every cut position of every file of the bound, read through every call program, against the uncut file",
"P10":"fault enumeration: every write of every bounded writer history fails after accepting each byte count, against a protocol model",
"P11":"exhaustive corruption enumeration: every byte value at every position, word values, self- and cross-references at every word, header counts, index nodes, short files and streams, part graphs; every case through all reader programs with panic, loop and allocation monitors (64 and 32 bit builds)",
"P12":"exhaustive enumeration of property values (all 8/16-bit; byte-pair lanes, all 2^32 in the thorough tier), lengths and property sequences through the real codec, against an independent codec",
"P13":"exhaustive enumeration of cuts, column indexes, type numbers and stream failures of property streams on the real decoder",
"P17":"exhaustive enumeration of field subsets, boundary values and mutations through the real accessors and builders, against an independent FlatBuffers codec",
"P14":"exhaustive enumeration of Hilbert cells (all 2^32 in the thorough tier, dense grids, boundaries and bit lanes otherwise) and of reference lists through the real sort, against an independent curve",
"P15":"exhaustive enumeration of reference counts and node sizes (small ranges, powers, the 2^63 and 2^31 limits; 64 and 32 bit builds) through the real Size, against exact integer arithmetic",
"P16":"exhaustive enumeration of box pairs, triples, points and expansion sequences over an alphabet of coordinates on the real Box, against set-theoretic definitions",
"P18":"stateless exploration of all interleavings of pairs and triples of operations under a controlled scheduler with a yield point before every statement of the packages (preemption-bounded), plus every pair and triple under the race detector",
"P19":"exhaustive enumeration of call sequences in which the caller overwrites every buffer it handed in or got back between any two calls, against an undisturbed twin",
"P21":"exhaustive enumeration of header counts, node sizes, length fields, magic bytes and their deliveries at and around the documented limits on the real reader and writer",
"P22":"exhaustive enumeration of header field subsets and values, property schemas and geometries through the real summary functions, against an independent parse of their output",
}
T["P23"]="exhaustive enumeration of index shapes, queries, files and call histories on the real streaming search and file reader, with a monitor comparing every byte range read with the ranges an independent tree says are needed"
T["P20"]="exhaustive enumeration of index, property, file and accessor cases (bounded) on the real code compiled for 32-bit (run natively) and for 32-bit big-endian (run in a MIPS emulator), against the byte-exact reference; file selections of other architectures are run too where they differ; builds for all 14 architectures"
exec(open(here+'/claims.py').read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "technique":T[i],"level":"fault_enumeration" if i in FAULT else "model_checking",
          "level_note":N.get(i,DEFAULT_NOTE)})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks are families of /verif/mc driven by check.sh; no hooks in /repo are needed (P18 and P20 build instrumented copies through go build -overlay)."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write("\n")
