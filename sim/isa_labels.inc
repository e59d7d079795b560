/* What isa-info's lines are about.  X(architecture, label, query) */
X(ARCH_X86, "LAHF/SAHF", "cpuinfo_has_x86_lahf_sahf")
X(ARCH_X86, "LZCNT", "cpuinfo_has_x86_lzcnt")
X(ARCH_X86, "POPCNT", "cpuinfo_has_x86_popcnt")
X(ARCH_X86, "TBM", "cpuinfo_has_x86_tbm")
X(ARCH_X86, "BMI", "cpuinfo_has_x86_bmi")
X(ARCH_X86, "BMI2", "cpuinfo_has_x86_bmi2")
X(ARCH_X86, "ADCX/ADOX", "cpuinfo_has_x86_adx")
X(ARCH_X86, "MOVBE", "cpuinfo_has_x86_movbe")
X(ARCH_X86, "PREFETCH", "cpuinfo_has_x86_prefetch")
X(ARCH_X86, "PREFETCHW", "cpuinfo_has_x86_prefetchw")
X(ARCH_X86, "PREFETCHWT1", "cpuinfo_has_x86_prefetchwt1")
X(ARCH_X86, "CLZERO", "cpuinfo_has_x86_clzero")
X(ARCH_X86, "MMX", "cpuinfo_has_x86_mmx")
X(ARCH_X86, "MMX+", "cpuinfo_has_x86_mmx_plus")
X(ARCH_X86, "3dnow!", "cpuinfo_has_x86_3dnow")
X(ARCH_X86, "3dnow!+", "cpuinfo_has_x86_3dnow_plus")
X(ARCH_X86, "3dnow! Geode", "cpuinfo_has_x86_3dnow_geode")
X(ARCH_X86, "DAZ", "cpuinfo_has_x86_daz")
X(ARCH_X86, "SSE", "cpuinfo_has_x86_sse")
X(ARCH_X86, "SSE2", "cpuinfo_has_x86_sse2")
X(ARCH_X86, "SSE3", "cpuinfo_has_x86_sse3")
X(ARCH_X86, "SSSE3", "cpuinfo_has_x86_ssse3")
X(ARCH_X86, "SSE4.1", "cpuinfo_has_x86_sse4_1")
X(ARCH_X86, "SSE4.2", "cpuinfo_has_x86_sse4_2")
X(ARCH_X86, "SSE4a", "cpuinfo_has_x86_sse4a")
X(ARCH_X86, "Misaligned SSE", "cpuinfo_has_x86_misaligned_sse")
X(ARCH_X86, "AVX", "cpuinfo_has_x86_avx")
X(ARCH_X86, "FMA3", "cpuinfo_has_x86_fma3")
X(ARCH_X86, "FMA4", "cpuinfo_has_x86_fma4")
X(ARCH_X86, "XOP", "cpuinfo_has_x86_xop")
X(ARCH_X86, "F16C", "cpuinfo_has_x86_f16c")
X(ARCH_X86, "AVX2", "cpuinfo_has_x86_avx2")
X(ARCH_X86, "AVX512F", "cpuinfo_has_x86_avx512f")
X(ARCH_X86, "AVX512PF", "cpuinfo_has_x86_avx512pf")
X(ARCH_X86, "AVX512ER", "cpuinfo_has_x86_avx512er")
X(ARCH_X86, "AVX512CD", "cpuinfo_has_x86_avx512cd")
X(ARCH_X86, "AVX512DQ", "cpuinfo_has_x86_avx512dq")
X(ARCH_X86, "AVX512BW", "cpuinfo_has_x86_avx512bw")
X(ARCH_X86, "AVX512VL", "cpuinfo_has_x86_avx512vl")
X(ARCH_X86, "AVX512IFMA", "cpuinfo_has_x86_avx512ifma")
X(ARCH_X86, "AVX512VBMI", "cpuinfo_has_x86_avx512vbmi")
X(ARCH_X86, "AVX512VBMI2", "cpuinfo_has_x86_avx512vbmi2")
X(ARCH_X86, "AVX512BITALG", "cpuinfo_has_x86_avx512bitalg")
X(ARCH_X86, "AVX512VPOPCNTDQ", "cpuinfo_has_x86_avx512vpopcntdq")
X(ARCH_X86, "AVX512VNNI", "cpuinfo_has_x86_avx512vnni")
X(ARCH_X86, "AVX512BF16", "cpuinfo_has_x86_avx512bf16")
X(ARCH_X86, "AVX512FP16", "cpuinfo_has_x86_avx512fp16")
X(ARCH_X86, "AVX512VP2INTERSECT", "cpuinfo_has_x86_avx512vp2intersect")
X(ARCH_X86, "AVX512_4VNNIW", "cpuinfo_has_x86_avx512_4vnniw")
X(ARCH_X86, "AVX512_4FMAPS", "cpuinfo_has_x86_avx512_4fmaps")
X(ARCH_X86, "AVX10_1", "cpuinfo_has_x86_avx10_1")
X(ARCH_X86, "AVX10_2", "cpuinfo_has_x86_avx10_2")
X(ARCH_X86, "AMX_BF16", "cpuinfo_has_x86_amx_bf16")
X(ARCH_X86, "AMX_TILE", "cpuinfo_has_x86_amx_tile")
X(ARCH_X86, "AMX_INT8", "cpuinfo_has_x86_amx_int8")
X(ARCH_X86, "AMX_FP16", "cpuinfo_has_x86_amx_fp16")
X(ARCH_X86, "AVXVNNI", "cpuinfo_has_x86_avxvnni")
X(ARCH_X86, "AVX_VNNI_INT8", "cpuinfo_has_x86_avx_vnni_int8")
X(ARCH_X86, "AVX_VNNI_INT16", "cpuinfo_has_x86_avx_vnni_int16")
X(ARCH_X86, "AVX_NE_CONVERT", "cpuinfo_has_x86_avx_ne_convert")
X(ARCH_X86, "MONITOR/MWAIT", "cpuinfo_has_x86_mwait")
X(ARCH_X86, "MONITORX/MWAITX", "cpuinfo_has_x86_mwaitx")
X(ARCH_X86, "CMPXCHG16B", "cpuinfo_has_x86_cmpxchg16b")
X(ARCH_X86, "HLE", "cpuinfo_has_x86_hle")
X(ARCH_X86, "RTM", "cpuinfo_has_x86_rtm")
X(ARCH_X86, "XTEST", "cpuinfo_has_x86_xtest")
X(ARCH_X86, "RDPID", "cpuinfo_has_x86_rdpid")
X(ARCH_X86, "AES", "cpuinfo_has_x86_aes")
X(ARCH_X86, "VAES", "cpuinfo_has_x86_vaes")
X(ARCH_X86, "PCLMULQDQ", "cpuinfo_has_x86_pclmulqdq")
X(ARCH_X86, "VPCLMULQDQ", "cpuinfo_has_x86_vpclmulqdq")
X(ARCH_X86, "GFNI", "cpuinfo_has_x86_gfni")
X(ARCH_X86, "RDRAND", "cpuinfo_has_x86_rdrand")
X(ARCH_X86, "RDSEED", "cpuinfo_has_x86_rdseed")
X(ARCH_X86, "SHA", "cpuinfo_has_x86_sha")
X(ARCH_X86, "RDTSCP", "cpuinfo_has_x86_rdtscp")
X(ARCH_X86, "MPX", "cpuinfo_has_x86_mpx")
X(ARCH_X86, "CLWB", "cpuinfo_has_x86_clwb")
X(ARCH_X86, "FXSAVE/FXSTOR", "cpuinfo_has_x86_fxsave")
X(ARCH_X86, "XSAVE/XSTOR", "cpuinfo_has_x86_xsave")
X(ARCH_ARM32, "Thumb", "cpuinfo_has_arm_thumb")
X(ARCH_ARM32, "Thumb 2", "cpuinfo_has_arm_thumb2")
X(ARCH_ARM32, "ARMv5E", "cpuinfo_has_arm_v5e")
X(ARCH_ARM32, "ARMv6", "cpuinfo_has_arm_v6")
X(ARCH_ARM32, "ARMv6-K", "cpuinfo_has_arm_v6k")
X(ARCH_ARM32, "ARMv7", "cpuinfo_has_arm_v7")
X(ARCH_ARM32, "ARMv7 MP", "cpuinfo_has_arm_v7mp")
X(ARCH_ARM32, "ARMv8", "cpuinfo_has_arm_v8")
X(ARCH_ARM32, "IDIV", "cpuinfo_has_arm_idiv")
X(ARCH_ARM32, "VFPv2", "cpuinfo_has_arm_vfpv2")
X(ARCH_ARM32, "VFPv3", "cpuinfo_has_arm_vfpv3")
X(ARCH_ARM32, "VFPv3+D32", "cpuinfo_has_arm_vfpv3_d32")
X(ARCH_ARM32, "VFPv3+FP16", "cpuinfo_has_arm_vfpv3_fp16")
X(ARCH_ARM32, "VFPv3+FP16+D32", "cpuinfo_has_arm_vfpv3_fp16_d32")
X(ARCH_ARM32, "VFPv4", "cpuinfo_has_arm_vfpv4")
X(ARCH_ARM32, "VFPv4+D32", "cpuinfo_has_arm_vfpv4_d32")
X(ARCH_ARM32, "VJCVT", "cpuinfo_has_arm_jscvt")
X(ARCH_ARM32, "WMMX", "cpuinfo_has_arm_wmmx")
X(ARCH_ARM32, "WMMX 2", "cpuinfo_has_arm_wmmx2")
X(ARCH_ARM32, "NEON", "cpuinfo_has_arm_neon")
X(ARCH_ARM32, "NEON-FP16", "cpuinfo_has_arm_neon_fp16")
X(ARCH_ARM32, "NEON-FMA", "cpuinfo_has_arm_neon_fma")
X(ARCH_ARM32, "NEON VQRDMLAH/VQRDMLSH", "cpuinfo_has_arm_neon_rdm")
X(ARCH_ARM32, "NEON FP16 arithmetics", "cpuinfo_has_arm_neon_fp16_arith")
X(ARCH_ARM32, "NEON complex", "cpuinfo_has_arm_fcma")
X(ARCH_ARM32, "NEON VSDOT/VUDOT", "cpuinfo_has_arm_neon_dot")
X(ARCH_ARM32, "NEON VFMLAL/VFMLSL", "cpuinfo_has_arm_fhm")
X(ARCH_ARM32, "AES", "cpuinfo_has_arm_aes")
X(ARCH_ARM32, "SHA1", "cpuinfo_has_arm_sha1")
X(ARCH_ARM32, "SHA2", "cpuinfo_has_arm_sha2")
X(ARCH_ARM32, "PMULL", "cpuinfo_has_arm_pmull")
X(ARCH_ARM32, "CRC32", "cpuinfo_has_arm_crc32")
X(ARCH_ARM64, "ARM v8.1 atomics", "cpuinfo_has_arm_atomics")
X(ARCH_ARM64, "ARM v8.1 SQRDMLxH", "cpuinfo_has_arm_neon_rdm")
X(ARCH_ARM64, "ARM v8.2 FP16 arithmetics", "cpuinfo_has_arm_fp16_arith")
X(ARCH_ARM64, "ARM v8.2 FHM", "cpuinfo_has_arm_fhm")
X(ARCH_ARM64, "ARM v8.2 BF16", "cpuinfo_has_arm_bf16")
X(ARCH_ARM64, "ARM v8.2 Int8 dot product", "cpuinfo_has_arm_neon_dot")
X(ARCH_ARM64, "ARM v8.2 Int8 matrix multiplication", "cpuinfo_has_arm_i8mm")
X(ARCH_ARM64, "ARM v8.3 JS conversion", "cpuinfo_has_arm_jscvt")
X(ARCH_ARM64, "ARM v8.3 complex", "cpuinfo_has_arm_fcma")
X(ARCH_ARM64, "ARM SVE", "cpuinfo_has_arm_sve")
X(ARCH_ARM64, "ARM SVE 2", "cpuinfo_has_arm_sve2")
X(ARCH_ARM64, "ARM SME", "cpuinfo_has_arm_sme")
X(ARCH_ARM64, "ARM SME 2", "cpuinfo_has_arm_sme2")
X(ARCH_ARM64, "AES", "cpuinfo_has_arm_aes")
X(ARCH_ARM64, "SHA1", "cpuinfo_has_arm_sha1")
X(ARCH_ARM64, "SHA2", "cpuinfo_has_arm_sha2")
X(ARCH_ARM64, "PMULL", "cpuinfo_has_arm_pmull")
X(ARCH_ARM64, "CRC32", "cpuinfo_has_arm_crc32")
X(ARCH_RISCV, "Base Integer", "cpuinfo_has_riscv_i")
X(ARCH_RISCV, "Integer Multiply/Divide", "cpuinfo_has_riscv_m")
X(ARCH_RISCV, "Atomics", "cpuinfo_has_riscv_a")
X(ARCH_RISCV, "Single-Precision Floating-Point", "cpuinfo_has_riscv_f")
X(ARCH_RISCV, "Double-Precision Floating-Point", "cpuinfo_has_riscv_d")
X(ARCH_RISCV, "Compressed", "cpuinfo_has_riscv_c")
X(ARCH_RISCV, "Vector", "cpuinfo_has_riscv_v")
