DEFAULT_NOTE="Every execution within the stated bounds and alphabets is run on the real code and compared with an independent reference; nothing is claimed beyond the bounds. Trusts the Go toolchain, the reference code in mc/ and the engine."
N={}
N["P20"]="Big-endian results come from the real code compiled for GOARCH=mips and run in mc/mips.go, an emulator written for this purpose (it also runs the Go runtime and the reference code, so an emulator fault shows as a failed run, not as a silent pass); 64-bit big-endian hosts are only covered by their file selection and by building. Within the stated bounds, every execution is run and compared with an independent reference."
