cd /verif/harness
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=/verif/engine/target/release/sa RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on -Zmir-opt-level=0 -Awarnings"
export CARGO_TARGET_DIR=/tmp/hz/target RUST_MIN_STACK=268435456
export SA_ROOT=$1 SA_OUT=/tmp/sa_out
export CARGO_INCREMENTAL=0
rm -rf /tmp/sa_out; touch src/lib.rs
cargo +nightly check --offline 2>&1 | grep -v "homepage\|Finished\|Checking"
python3 - <<'P'
import json,glob
for f in sorted(glob.glob('/tmp/sa_out/*.json')):
    try: d=json.load(open(f))
    except Exception as e: print(f,"BAD",e); continue
    print(f"== {d['root']} w{d['ptrw']} outs={d['outs']} gave_up={d['gave_up']} steps={d['steps']} calls={d['calls']} lp={d['lp']} ms={d['ms']} proved={sum(d['proved'].values())}")
    for x in d['findings']: print("  FINDING",x['rule'],x['func'],'|',x['msg']); print("     ",x['trace'][-1500:].replace('\n','\n      '))
    for k,v in d['unmodelled'].items(): print("  unmodelled",v,k)
    for k,v in d['loops'].items(): print("  loop",k,v)
P
