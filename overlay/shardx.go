// Package shardx re-exports dupi's internal shard package to the harness. It
// exists only through a build overlay.
package shardx

import "github.com/go-air/dupi/internal/shard"

type (
	Indexer   = shard.Indexer
	Index     = shard.Index
	ReadState = shard.ReadState
)
