#!/bin/bash
# tools/dev.sh ENTRY [k=v,k=v] [time]  -- build the bitcode and run one harness with the dev build of the engine
cd ${V:-/verif} && python3 -c "import check; check.build_bitcode()" || exit 1
rm -rf ${SO:-/tmp/so} && mkdir -p ${SO:-/tmp/so}
P=(); [ -n "$2" ] && P=(--params "$2")
/tmp/symex_t/release/symex --bc ${V:-/verif}/build/red.bc --entry $1 --out ${SO:-/tmp/so} --jobs 8 --time ${3:-120} --max-instr 400000000 "${P[@]}" ${@:4} 2>&1 | grep -v "^{" | tail -40
cat ${SO:-/tmp/so}/result.json | python3 -c "
import json,sys; r=json.load(sys.stdin)
print({k:v for k,v in r.items() if k not in ('functions','samples','funcs') and not isinstance(v,list)})
for k in ('violations','errors'):
  if r.get(k): print(k, json.dumps(r[k])[:3000])"
ls ${SO:-/tmp/so} | grep viol | head
