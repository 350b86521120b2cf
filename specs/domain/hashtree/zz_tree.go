//go:build go1.21

package hashtree

import (
	"github.com/steve-care-software/steve/domain/hash"
	"github.com/steve-care-software/steve/zzgov"
)

//gov:fileprops M02

// The number of bottom leaves under a leaf.
//
//gov:ghost
func zzSize(l Leaf) int {
	if !l.HasParent() {
		return 1
	}
	left := zzSize(l.Parent().Left())
	right := zzSize(l.Parent().Right())
	if left < 1 || right < 1 || left > 1<<40 || right > 1<<40 {
		return 1
	}
	return left + right
}

// A leaf whose tree is finite, whole and of a countable size.
//
//gov:ghost
func zzLeafOk(l Leaf) bool {
	if l == nil {
		return false
	}
	if !l.HasParent() {
		return true
	}
	return zzParentOk(l.Parent())
}

func zzParentOk(p ParentLeaf) bool {
	return zzLeafOk(p.Left()) && zzLeafOk(p.Right()) && zzSize(p.Left()) >= 1 && zzSize(p.Right()) >= 1 && zzSize(p.Left()) <= 1<<40 && zzSize(p.Right()) <= 1<<40
}

// The i-th bottom leaf under a leaf, from the left.
//
//gov:ghost
func zzNth(l Leaf, i int) Leaf {
	if !l.HasParent() {
		return l
	}
	left := zzSize(l.Parent().Left())
	if i < left {
		return zzNth(l.Parent().Left(), i)
	}
	return zzNth(l.Parent().Right(), i-left)
}

func zzParentSize(p ParentLeaf) int { return zzSize(p.Left()) + zzSize(p.Right()) }

func zzParentNth(p ParentLeaf, i int) Leaf {
	left := zzSize(p.Left())
	if i < left {
		return zzNth(p.Left(), i)
	}
	return zzNth(p.Right(), i-left)
}

func zzInvCopied(iter zzgov.Iter, obj Leaves, out []Leaf) bool {
	list := obj.(*leaves).list
	return len(out) == int(iter) && zzgov.ForAll(0, int(iter), func(i int) bool { return out[i] == list[i] })
}

//gov:contract Leaves.Leaves
//gov:use
//gov:inv zzInvCopied
func zzLeavesList(obj Leaves) func(out []Leaf) {
	zzgov.Requires(obj != nil)
	list := obj.(*leaves).list
	zzgov.NoPanic()
	return func(out []Leaf) {
		zzgov.Ensures("as many", len(out) == len(list))
		zzgov.Ensures("the same ones in order", zzgov.ForAll(0, len(list), func(i int) bool { return out[i] == list[i] }))
	}
}

//gov:ghost
func zzListed(l Leaf, out Leaves) bool {
	list := out.(*leaves).list
	return len(list) == zzSize(l) && zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i] == zzNth(l, i) })
}

//gov:contract Leaf.Leaves
//gov:use
func zzLeafLeaves(obj Leaf) func(out Leaves) {
	zzgov.Requires(obj != nil)
	zzgov.Requires(zzLeafOk(obj))
	zzgov.NoPanic()
	return func(out Leaves) {
		zzgov.Ensures("made here", out != nil && zzgov.Fresh(out))
		list := out.(*leaves).list
		zzgov.Ensures("as many as bottom leaves", len(list) == zzSize(obj))
		zzgov.Ensures("from left to right", zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i] == zzNth(obj, i) }))
	}
}

func zzInvMerged(iter zzgov.Iter, obj ParentLeaf) bool { return true }

//gov:contract ParentLeaf.BlockLeaves
//gov:use
//gov:inv zzInvMerged
func zzBlockLeaves(obj ParentLeaf) func(out Leaves) {
	zzgov.Requires(obj != nil)
	zzgov.Requires(zzParentOk(obj))
	zzgov.NoPanic()
	return func(out Leaves) {
		zzgov.Ensures("made here", out != nil && zzgov.Fresh(out))
		list := out.(*leaves).list
		zzgov.Ensures("as many as bottom leaves", len(list) == zzParentSize(obj))
		zzgov.Ensures("from left to right", zzgov.ForAll(0, len(list), func(i int) bool { return list[i] != nil && list[i] == zzParentNth(obj, i) }))
	}
}

func zzIsFrom(h hash.Hash, data [][]byte) bool {
	return zzgov.Exists(0, len(data), func(k int) bool { return hash.ZZDigest(data[k]) == h })
}
