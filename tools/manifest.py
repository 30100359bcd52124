import json,sys
sys.path.insert(0,'/verif')
T={
'C01':('monitored re-serialisation of generated streams against the bytes read (both builds)','Held on tens of thousands of streams from an independent encoder, miniz/zlib and bit mutation; trusts the harness reader log. Not exhaustive.'),
'C02':('differential monitoring against an independent RFC 1951 encoder/decoder and zlib','Blocks, codes and payload compared exactly on generated valid streams; trusts agreement of two reference decoders.'),
'C03':('oracle for malformed streams: constructed violations of every rule, every truncation point, mutations','Every rule of the format is violated many times; a strict reference decoder decides; not every malformed stream is tried.'),
'C04':('panic, abort, allocation and CPU monitors on hostile input, overflow checks and AddressSanitizer','Hundreds of thousands of hostile inputs in overflow-checked, plain and ASan builds with an accounting allocator.'),
'C05':('monitored reader: bytes taken, results over chunkings and interruptions','Each stream is parsed under several delivery schedules; trailing bytes must stay unread.'),
'C06':('monitored header reader against an independent RFC 1952 header builder','All flag sets, field lengths, every truncation and all invalid magic/method/flag bytes; exhaustive in the small dimensions only.'),
'C07':('round-trip monitor: codes -> corrections -> codes under all configurations','Random and guided tokenisations with contexts; predictor is exercised through its public configurations.'),
'C08':('round-trip and layout monitor against an independent metadata codec','Random and boundary correction sequences, byte-exact layout.'),
'C09':('fault injection and truncation at every byte of metadata, against an independent reader','Every truncation point and fault position of each generated metadata.'),
'C10':('online checker of every offered match against a naive match finder','Every position of generated buffers, contexts, hidden ranges and limits; buffers are small enough for the naive finder.'),
'C11':('online checker: every prediction is expanded and compared with the data','All configurations and random histories of feedback.'),
'C12':('offline comparison of recorded corrections with an independent diff of predictions and codes','Self-predicted streams and streams with known deviations.'),
'C13':('model-based monitoring of the window after every operation','Random histories at many capacities against a plain vector.'),
'C14':('monitored transfers: bytes, counts, errors and an independent SHA-512','Faulty, short and interrupted I/O under the filters.'),
'C15':('fault injection at every byte of reader and writer, prefix checker','Every offset of each small case is failed, persistently and once, with several error kinds.'),
'C16':('black-box monitoring of the real binary against zlib, with system-call perturbation','File, stdin, slow pipe, short and interrupted system calls; two builds of the binary.'),
'C17':('black-box monitoring: every line of the listing against the generator\'s own listing','Listings compared record by record and expanded to the payload.'),
'C18':('black-box monitoring: strict parse of the rewritten file, CRC, length and payload','As C16, with payloads around the block limits.'),
'C19':('trace checker of block cuts against the rule recomputed from the payload, metamorphic edits','Random, constant, periodic and constructed payloads; edits and other wrappings must re-align.'),
'C20':('system-call fault injection (shim, file size limits, full device, closed pipe), truncations, broken inputs','Every truncation of small files, faults at every output offset of small outputs and at chosen offsets of large ones.'),
'C21':('end-to-end round-trip monitor over multi-block files and levels','Whole files are split, stored and rebuilt; bytes compared.'),
'C22':('ThreadSanitizer, concurrent against sequential result comparison, many first-use processes','Data races seen on executed schedules only; first use is raced in hundreds of fresh processes.'),
'C23':('online comparison of every prediction with an independent model of the level rules','All levels, collision-rich data, contexts and histories.'),
'C24':('monitored reader position at every block handed out, accounting allocator over long streams, resident set of the tools','Bounds are generous (half a megabyte plus a multiple of the largest block) against streams many times larger; a constant-factor increase is not seen.'),
'C25':('bit-exact differential monitoring of the writer on composed, spoilt and parsed blocks against an independent encoder; parse-back','Every symbol is the missing one, every distance from 0 to 65535 is asked for, descriptions are cut at every bit and mutated; trusts the reference header reader.'),
'C26':('model-based monitoring of bit strings after every operation','Random histories against a plain list of bits; observed through the code description of a block.'),
'C27':('model-based monitoring of decoding composed blocks into windows of any capacity, whole and in parts','Random histories at many capacities against a byte-by-byte expansion.'),
'C28':('monitored CPU time at one, four and sixteen times the size, for many kinds of work and input','Growth beyond 2.7 (3.2) times the linear one, seen five times over, is a violation; a slow-down by a constant factor is not seen, nor one that shows only beyond the sizes reached (megabytes).'),
}
lv={'C09':'fault_enumeration','C15':'fault_enumeration','C20':'fault_enumeration'}
import subprocess
h=subprocess.check_output(['git','-C','/repo','rev-parse','a65c0e8'],text=True).strip()
m={'version':1,'setup_cmd':'python3 check.py --setup',
'hooks':{'guard':'cfg(rezip_verif)','enable':'RUSTFLAGS="--cfg rezip_verif" when building /verif/harness, which depends on /repo/lib by path; the rezippers binary is built without hooks','source_commits':[h]},
'checks':[{'property':p,'quick_cmd':f'python3 check.py {p} --tier quick','thorough_cmd':f'python3 check.py {p} --tier thorough','evidence_file':f'evidence/{p}.json','technique':t,'level':lv.get(p,'exploration'),'level_note':n} for p,(t,n) in T.items()],
'not_applicable':[],
'notes':'All checks run the real code built from /repo; exit 2 means no verdict (build failure, watchdog, too little observed).'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
