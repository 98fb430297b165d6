// Placeholder: build.sh generates the real module file (-modfile) from /repo/go.mod.
module verif.local/mc

go 1.23
