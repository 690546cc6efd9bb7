//go:build !amd64

package world

func gid() int64 { return slowGid() }
