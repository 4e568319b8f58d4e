# warms the Go build cache; the checks build everything they need themselves
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
bash "$here/build.sh" "$d" && bash "$here/build.sh" "$d" race
exit 0
