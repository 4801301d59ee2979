//go:build go1.23

package main

import "github.com/yangl1996/rateless-set-reconcile/des"

// Reads the contents of a sender's buffer and block. This file is optional:
// the driver leaves it out when it does not compile.
func init() {
	zvDeep = func(s *server, p des.Module) (buffer, block []transaction) {
		h := s.handlers[p]
		for _, t := range h.sender.buffer {
			buffer = append(buffer, t.Data())
		}
		for _, t := range h.sender.currentBlock {
			block = append(block, t.Data())
		}
		return
	}
}
