# tool_overlay DIR: writes DIR/overlay.json, which redirects what programs dial to $VERIF_EXPLORER.
tool_overlay() {
  local dir=$1 net
  net=$(go env GOROOT)/src/net
  cat > "$dir/redirect.go" <<'EOF' || return 1
package net

import "os"

func verifRedirect(address string) string {
	if a := os.Getenv("VERIF_EXPLORER"); a != "" {
		return a
	}
	return address
}
EOF
  sed '/^func (d \*Dialer) DialContext(/a\	address = verifRedirect(address)' "$net/dial.go" > "$dir/dial.go" || return 1
  grep -q verifRedirect "$dir/dial.go" || return 1
  printf '{"Replace": {"%s": "%s", "%s": "%s"}}\n' "$net/dial.go" "$dir/dial.go" \
    "$net/verif_redirect.go" "$dir/redirect.go" > "$dir/overlay.json"
}
