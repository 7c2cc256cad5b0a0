// Package nimsim is a deterministic simulator for terorie.dev/nimiq.
package nimsim
