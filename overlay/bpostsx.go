package attic

import "github.com/go-air/dupi/attic/ibloom"

// Exported for the harness. This file exists only through a build overlay.

// BPosts is a set of posts.
type BPosts = bposts

// BPostOnes makes the set of everything.
func BPostOnes(b ibloom.Filter) *BPosts { return bpostOnes(b) }

// BPostInit makes t an empty set.
func BPostInit(t *BPosts, root string, b ibloom.Filter) { t.init(root, b) }
