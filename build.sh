#!/bin/bash
# Build the harness. Cargo notices changes by time stamps; a change of the contents with old time stamps (a restored
# tree, say) is noticed by a hash.
cd "$(dirname "$0")/harness" || exit 2
mkdir -p target ../run
exec 9>target/build.lock
flock 9
sum=$(find /repo/src /repo/macros /repo/Cargo.toml -path '*/target' -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
	rm -f target/repo.sum
	cargo clean --release --offline -p sneturfahi -p macros >/dev/null 2>&1
fi
if ! cargo build --release --offline >../run/build.log 2>&1; then
	tail -40 ../run/build.log
	echo "the harness could not be built"
	exit 2
fi
echo "$sum" >target/repo.sum
