#!/bin/bash
# parse every specification; nothing has to be compiled.
cd "$(dirname "$0")/../spec" || exit 1
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  out=$(java -cp $cp tla2sany.SANY "$m" 2>&1) || { echo "$m"; echo "$out" | tail -20; exit 1; }
done
chmod +x ../check
echo "specifications parsed: $(ls *.tla | wc -l)"
