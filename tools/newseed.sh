#!/bin/bash
# newseed.sh ID PKGDIR: write the demo.sh that runs demo_test.go in that package
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.sh <<X
#!/bin/bash
# run with cwd /repo
here=\$(cd "\$(dirname "\$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
o=\$(mktemp); trap 'rm -f "\$o"' EXIT
echo "{\"Replace\":{\"\$PWD/$2/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$o"
go test -vet=off -count=1 -timeout 120s -overlay "\$o" -run TestZZDemo ./$2
X
chmod +x $d/demo.sh
