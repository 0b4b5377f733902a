// Package c07 decides property C07: the proxy firewall.
package c07

import "github.com/redmaner/MaguroHTTP/verif/lib"

// H_table: every choice of rules on four nodes.
func H_table() { lib.FwTable(true) }

// H_path: every short canonical path.
func H_path() { lib.FwPath(true) }

// H_nil: no rules.
func H_nil() { lib.FwNil(true) }

// H_conc: concurrent requests.
func H_conc() { lib.FwConc(true) }

// H_scale: long lists, deep paths, many rules.
func H_scale() { lib.FwScale(true) }

// H_request: nothing but the address and the path decides.
func H_request() { lib.FwRequest(true) }
