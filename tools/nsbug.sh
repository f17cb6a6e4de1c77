#!/bin/bash
# nsbug.sh ID...: run mkbug.py on a private copy of /repo (bind-mounted in a namespace of its own), so that
# /repo itself stays untouched.
for id in "$@"; do
  rm -rf "/tmp/rp-$id"; cp -a "${SRC:-/repo}" "/tmp/rp-$id"
  unshare -Urm bash -c "mount --bind /tmp/rp-$id /repo && cd /verif && echo '#####' $id && timeout 880 python3 tools/mkbug.py $id" > "/tmp/bugs/$id.log" 2>&1
  rm -rf "/tmp/rp-$id"
  grep -h '^#####\|^CHECK\|tests passed\|^removed\|demo with\|demo without\|Error\|assert' "/tmp/bugs/$id.log"
done
