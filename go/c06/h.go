// Package c06 decides property C06: the content firewall.
package c06

import "github.com/redmaner/MaguroHTTP/verif/lib"

// H_table: every choice of rules on four nodes.
func H_table() { lib.FwTable(false) }

// H_path: every short canonical path.
func H_path() { lib.FwPath(false) }

// H_nil: no rules.
func H_nil() { lib.FwNil(false) }

// H_conc: concurrent requests.
func H_conc() { lib.FwConc(false) }

// H_scale: long lists, deep paths, many rules.
func H_scale() { lib.FwScale(false) }

// H_request: nothing but the address and the path decides.
func H_request() { lib.FwRequest(false) }
