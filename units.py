"""Which harness units decide which property."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
T6 = ['SCALAR', 'EMU128', 'SSE2', 'SSSE3', 'SSE4', 'AVX2', 'AVX3']
T8 = T6 + ['AVX3_DL']
THOROUGH = {tuple(T6): T6 + ['AVX3_DL', 'AVX3_ZEN4', 'AVX3_SPR']}
TRUSTED = ['clang 18 front end (C++ to LLVM IR)', 'LLVM mem2reg', '/verif/engine VC generator and its x86 intrinsic models (validated against the CPU by tools/difftest.sh)', 'z3', 'kissat (floating-point and hard bit-vector obligations, bit-blasted by z3)']
ASSUMPTIONS = []
# C08: contracts whose obligations no back end decides in time (nested wide products, float sums, S-box by intrinsics-free emulation): bounded stand-ins
C8X = r'tSumOfLanesF<(f32|f64)|tSumOfMulQuadAccumulate<i16|tMinOfLanesF<(f32,(8|16)|f64,8)|tSatWidenMulPairwiseAccumulate<|t(Min|Max)OfLanes<i8,(32|64)|tMaskedReduceMinMax<i8,(16|32|64)|tReorderWidenMulAccumulate<u16|tSumsOfShuffledQuadAbsDiff<i8,64'
C8E = C8X + r'|tAESRound<|tAESRoundInv<|tCLMul'
C8 = [(['SCALAR', 'AVX3'], C8X), (['AVX2', 'SSE4'], C8X + '|tWidenMulAccumulate<i32'), (['SSSE3', 'SSE2'], C8E + '|tWidenMulAccumulate<i32'), (['EMU128'], C8E + '|tSumsOf8AbsDiff<i8')]
def c8units():
    r = []
    for t, x in C8: r.append({'src': 'o_reduce', 'targets': t, 'shards': 3, 'timeout': 3000, 'budget': 200, 'only': '^(?!' + x + ')'}); r.append({'src': 'o_reduce', 'targets': t, 'bounded': True, 'only': '^(' + x + ')'})
    return r
PROPS = {
 'C01': {'units': [{'src': 'o_int', 'targets': T6}]},
 'C02': {'units': [{'src': 'o_logic', 'targets': T6}]},
 'C03': {'units': [{'src': 'o_mask', 'targets': T6}]},
 'C04': {'units': [{'src': 'o_convert', 'targets': T6, 'shards': 4, 'timeout': 60000, 'budget': 200}]},

 'C05': {'units': [{'src': 'o_swizzle', 'targets': T6, 'shards': 3}]},
 'C06': {'units': [{'src': 'o_mem', 'targets': T6}]},
 'C07': {'units': [{'src': 'o_compress', 'targets': T6, 'only': r'^(?!.*<[ui]8,(32|64)>)(?!.*<([uif]|b?f)16,32>)'}, {'src': 'o_compress', 'targets': ['AVX2', 'AVX3'], 'bounded': True, 'only': r'(<[ui]8,(32|64)>|<[uif]16,32>)'}]},
 'C08': {'units': c8units()},
 'C09': {'units': [{'src': 'o_float', 'targets': T6, 'shards': 4, 'timeout': 200000, 'budget': 400}]},
 'C10': {'units': [{'src': 'o_base', 'targets': ['SSE2'], 'shards': 4, 'only': '^(?!tDivisor|tBitSet|tForeach|tCount)'}], 'lean': ['proofs/Lemmas.lean'], 'trusted': ['Lean 4 kernel (lemmas of RoundUpTo, DivCeil)'], 'assumptions': ['harness/o_base.cc LemmaRound states the instances of the Lean theorems round_up, round_down and div_ceil']},
 'C11': {'units': [{'src': 'o_base', 'targets': ['SSE2'], 'shards': 2, 'only': '^tDivisor'}], 'lean': ['proofs/Lemmas.lean'], 'trusted': ['Lean 4 kernel (lemmas of the multiplier)'], 'assumptions': ['harness/o_base.cc LemmaDivisor states the instances of the Lean theorems divisor_mul_small, divisor_t_le and divisor_quotient']},
 'C18': {'units': [{'src': 'o_base', 'targets': ['SSE2'], 'shards': 4, 'only': '^(tBitSet|tForeach64|tCount)'}, {'src': 'o_base', 'targets': ['SSE2'], 'bounded': True, 'secs': 5, 'only': '^tForeach4096'}]},
 'C13': {'units': [{'src': 'o_bitpack64', 'targets': T6, 'shards': 2}, {'src': 'o_bitpack32', 'targets': T6, 'shards': 1}, {'src': 'o_bitpack', 'targets': T6, 'shards': 2}]},
 'C20': {'units': [{'src': 'o_random', 'targets': T6, 'shards': 2}], 'assumptions': ['VectorBytes() is stood in by the vector size of the target under proof', 'malloc returns memory aligned to at least 1024 bytes (C16 proves the alignment arithmetic for any address)', 'result sizes are enumerated (1..5, 7..9, 16, 19), not symbolic', 'Uniform refers to ConvertTo (C04) and Mul (C09) by contract']},
 'C16': {'units': [{'src': 'o_alloc', 'targets': ['SSE2'], 'shards': 4}], 'assumptions': ['VectorBytes() is stood in by 64 (the largest vector)', 'the process-wide counter behind the allocation offsets is covered by calling the allocator a full cycle in a row', 'AlignedNDArray is checked for two shapes and the deleters for item counts up to 5; byte sizes, addresses and item counts of the overflow checks are symbolic']},
 'C12': {'units': [{'src': 'o_algo', 'targets': T6, 'shards': 4, 'only': '^t(?!CopyIf)'}, {'src': 'o_algo', 'targets': ['SCALAR', 'SSE4', 'AVX3'], 'thorough_targets': T6, 'shards': 2, 'only': '^tCopyIf'}]},
}
def _load():
    p = os.path.join(V, 'known_findings.jsonl'); return [json.loads(l) for l in open(p) if l.strip() and not l.startswith('#') and l.lstrip().startswith('{')] if os.path.exists(p) else []
KF = _load()
def known(prop, e):
    for k in KF:
        if k.get('status') == 'fixed' or k['property'] != prop: continue
        if re.fullmatch(k.get('unit', '.*'), e['unit']) and re.fullmatch(k.get('target', '.*'), e['target']) and re.fullmatch(k['entry'], e['entry']):
            if all(re.search(k.get('obligation', '.'), f['obligation']) for f in e.get('fails', [])): return k
    return None
# entries that the verifier cannot decide: bounded stand-ins (native random testing), never counted as proved
BOUNDED = []
def bounded(prop, e):
    return any(re.fullmatch(b['unit'], e['unit']) and re.fullmatch(b.get('target', '.*'), e['target']) and re.fullmatch(b['entry'], e['entry']) and e['status'] in b.get('status', ('unknown', 'unsupported')) for b in BOUNDED)
