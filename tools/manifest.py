import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
model={'O01':'differential between builds (six more, of different compilers and options) over encoded calls and histories','I01':'generated source files of includes and uses, compiled and linked; acceptance by compiler and linker as oracle','E03':'metamorphic: equal traces for pairs of keys and messages','G01':'differential between machines (x86-64, i386, wasm32, big-endian 64 and 32 bits) over encoded calls and histories','X01':'arbitrary arguments and histories with every load and store of the library as a monitor','V01':'arbitrary arguments and histories, every load checked against a record of written bytes','W01':'arbitrary arguments and histories, executed steps counted against bounds linear in the argument size','S04':'comparison functions with generated answers, permutation oracle, comparator as a monitor, red zones','S05':'counted comparisons against bounds computed from the generated array','J05':'differential over generated well-formed JSON texts','L01':'arbitrary arguments with interposed allocator, trapped system calls and painted stack as monitors','A01':'arbitrary arguments on builds in which undefined operations trap','R02':'schedule exploration: calls interrupted at drawn moments (compiler-inserted callbacks) against undisturbed calls and models','K01':'differential: read-only against ordinary memory, protection faults as monitor','B04':'differential against an independent encoder with substituted alphabet','C05':'metamorphic residue relation and single-bit damage','J04':'round trip builder to lookup','T02':'stateful model-based testing with tasks that change their table','R01':'metamorphic: operations nested in callbacks against the same operations alone','B01':'differential against an independent Base64 encoder, red zones','B02':'round-trip against an independent encoder, red zones','B03':'arbitrary-input fuzzing with red zones and AddressSanitizer',
'C01':'differential against bit-by-bit polynomial division','C02':'metamorphic (pieces = whole) and differential, state recovery at chosen running values','C03':'differential against bit-by-bit division over random parameters','C04':'metamorphic burst-error search',
'D01':'differential, per-bit model','D02':'differential, per-bit model, several optimisation levels','E01':'differential against an RFC 8439 model','E02':'round-trip and split metamorphic relations',
'F01':'differential and round-trip','F02':'algebraic relations and round-trip','H01':'history-based metamorphic testing (repeat calls after other calls)','J01':'model-based operation sequences','J02':'differential over generated well-formed objects','J03':'arbitrary-input fuzzing with red zones and soundness oracle',
'M01':'stateful model-based testing against a reference dictionary','N01':'stateful model-based testing of interleaved instances','N02':'argument-space enumeration and generation, then model-based use','P01':'stateful model-based testing against a reference priority queue','P02':'stateful model-based testing, full-queue histories','Q01':'stateful model-based testing against a reference FIFO',
'S01':'permutation and order oracle over generated arrays and orderings','S02':'comparator as a monitor, red zones','S03':'differential against a stable reference sort','T01':'stateful model-based testing of task tables','U01':'differential against a digit-by-digit model','U02':'differential and round-trip','U03':'differential and round-trip','U04':'exhaustive enumeration against a model'}
BIG={'B01','B02','C01','C02','C03','E01','F01','F02','J01','J02','M01','P01','P02','Q01','S01','S02','T01','U03'}
BUILDS={'O01':'ASan -O1, gcc -O2 and clang -O0 builds and six servers built with other options','I01':'gcc and clang in six C modes','E03':'ASan -O1, gcc -O2 and clang -O0 builds with a callback at every basic block (clang: load and store too)','G01':'ASan -O1, gcc -O2 and clang -O0 builds and servers for i386, wasm32 and two big-endian machines','X01':'clang -O0/-O1 and gcc -O2 builds with a callback at every load and store','V01':'clang -O1 and gcc -O2 builds with a callback at every load and store, and a clang -O0 build that follows unset locals','W01':'ASan -O1, gcc -O2 and clang -O0 builds with a callback at every basic block',
 'R02':'ASan -O1, gcc -O2 and clang -O0 builds with a callback at every basic block (clang: load and store too)','A01':'ASan -O1, gcc -O2 and clang -O0 builds that trap on undefined operations'}
def note(i):
    return ('Enumerated, seeded random and libFuzzer-driven cases on %s of the current tree (thorough: also gcc with unsigned char), judged by an independent oracle in harness/%s.cpp; failures are confirmed and shrunk.%s No proof: inputs outside the generated ones are not covered. Trusts the oracle, the compilers and the 64-bit Linux build.'
        % (BUILDS.get(i,'ASan -O1, gcc -O2 and clang -O0 builds'),i,' Includes arguments beyond 2^16, 2^31 or 2^32 bytes or operations.' if i in BIG else ''))
checks=[]
for p in props:
    i=p['id']
    checks.append({'property':i,'quick_cmd':'python3 check.py %s --tier quick'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
      'technique':'property-based testing and coverage-guided fuzzing: '+model[i],'level':'exploration',
      'level_note':note(i)})
json.dump({'version':1,'setup_cmd':'python3 check.py --selftest','checks':checks,'not_applicable':[],
 'notes':'No hooks: /repo is tested through its public headers. Seeds come from VERIF_SEED. Replay a violation with: python3 check.py --replay FILE'},open('/verif/MANIFEST.json','w'),indent=1)
