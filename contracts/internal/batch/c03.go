package batch

import "github.com/gernest/requiemdb/internal/bitmaps"

// VfLast is the positions that were added last.
func VfLast(b *Batch) *bitmaps.Bitmap { return b.labels[len(b.labels)-1] }

func VfLastID(b *Batch) uint64 { return b.ids[len(b.ids)-1] }

func VfLen(b *Batch) int { return len(b.labels) }
