#!/bin/bash
# mkdemo.sh ID PKG: writes a demo.sh which runs demo_test.go as a test of PKG
cat > /verif/seeded/$1/demo.sh <<X
#!/bin/bash
# Runs demo_test.go (beside this file) as a test of ./$2.
here=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
echo "{\"Replace\":{\"\$PWD/$2/zz_seeded_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$tmp/overlay.json"
GOPROXY=off go test -count=1 -vet=off -overlay "\$tmp/overlay.json" -run '^TestSeededDemo\$' -timeout 240s ./$2
X
