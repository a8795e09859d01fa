// ---- Reading arbitrary bytes: C11 (no panic, bounded memory, termination), C12 (no invented rows), C13 (envelope).
// Mode "hostile": the file content is arbitrary and every positioned read may fail or come back short.

def LE(m, p, w) = rd(m, p, w)

// invariant of an open reader
def RI(r) = r.file != nil && r.fileSize == size(r.file) && r.fileSize <= alloclim && len(r.blockIndex) == r.header.BlockCount

// the index was stored in the file
def RIsize(r) = 56 * len(r.blockIndex) <= alloclim

// position of the footer content and of the index entries
def footLen(m, n) = rd(m, n - 24, 8)
def footAt(m, n) = n - 24 - footLen(m, n)
def footCount(m, n) = rd(m, footAt(m, n), 4)
def entryAt(m, n, i) = footAt(m, n) + 4 + 56 * i
def entryIs(m, e, p) = e.BlockOffset == rd(m, p, 8) && e.BlockSize == rd(m, p + 8, 4) && e.MinID == rd(m, p + 12, 8) && e.MaxID == rd(m, p + 20, 8) && e.MinValue == rd(m, p + 28, 8) && e.MaxValue == rd(m, p + 36, 8) && e.Sum == rd(m, p + 44, 8) && e.Count == rd(m, p + 52, 4)
def headerIs(h, m) = h.Magic == rd(m, 0, 8) && h.Version == rd(m, 8, 4) && h.ColumnType == rd(m, 12, 4) && h.BlockSizeTarget == rd(m, 24, 4) && h.CompressionType == rd(m, 28, 4) && h.EncodingType == rd(m, 32, 4) && h.CreationTime == rd(m, 36, 8) && h.BitmapOffset == rd(m, 44, 8) && h.BitmapSize == rd(m, 52, 8)
def envelope(m, n) = n >= 88 && rd(m, 0, 8) == MagicNumber && rd(m, 8, 4) == Version && rd(m, n - 8, 8) == MagicNumber && footLen(m, n) <= n - 88 && 4 + 56 * footCount(m, n) <= footLen(m, n)

func col.NewReader (filename) (r, err) mode hostile
  props C13 C11
  flags @open
  fresh r
  ensures [C13] imp(err == nil, content(r.file) == diskcontent(filename) && size(r.file) == disksize(filename))
  ensures [C13] imp(err == nil, envelope(diskcontent(filename), disksize(filename)))
  ensures [C13] imp(err == nil, headerIs(r.header, diskcontent(filename)))
  ensures [C13] imp(err == nil, r.header.BlockCount == footCount(diskcontent(filename), disksize(filename)) && len(r.blockIndex) == r.header.BlockCount)
  ensures [C13] imp(err == nil, forall(i, 0, len(r.blockIndex), entryIs(diskcontent(filename), r.blockIndex[i], entryAt(diskcontent(filename), disksize(filename), i))))
  ensures imp(err == nil, RI(r) && isopen(r.file))
  ensures [C11] imp(err == nil, RIsize(r))

func (*col.Reader).BlockCount (r) (n)
  props C13
  ensures n == r.header.BlockCount
func (*col.Reader).EncodingType (r) (n)
  props C13
  ensures n == r.header.EncodingType
func (*col.Reader).Version (r) (n)
  props C13
  ensures n == r.header.Version

template [@open] (i idx, s []col.FooterEntry, b []byte) forall(k, 0, i, entryIs(elems(b), s[k], 56 * k))

// ---- one block
def bOff(r, i) = r.blockIndex[i].BlockOffset
def idSecAt(m, o) = o + 80 + rd(m, o + 64, 4)
def idSecLen(m, o) = rd(m, o + 68, 4)
def valSecAt(m, o) = o + 80 + rd(m, o + 72, 4)
def valSecLen(m, o) = rd(m, o + 76, 4)

// the rows returned for a block are those its sections hold
def blockInside(r, i) = bOff(r, i) + r.blockIndex[i].BlockSize <= size(r.file) && r.blockIndex[i].BlockSize >= 80
def sectionsInside(m, o, sz) = idSecAt(m, o) + idSecLen(m, o) <= o + sz && valSecAt(m, o) + valSecLen(m, o) <= o + sz
// each part separately (they are proved separately); c = content of the file, o = offset of the block, n = rows
def idsThere(e, c, o, n) = idsComplete(e, shift(c, idSecAt(c, o)), idSecLen(c, o), n)
def valsThere(e, c, o, n) = valsComplete(e, shift(c, valSecAt(c, o)), valSecLen(c, o), n)
def idsRead(e, ids, c, o, n) = idsAre(e, ids, shift(c, idSecAt(c, o)), idSecLen(c, o), n)
def valsRead(e, vs, c, o, n) = valsAre(e, vs, shift(c, valSecAt(c, o)), valSecLen(c, o), n)

func (*col.Reader).readBlock (r, blockIndex) (ids, values, err) mode hostile
  flags internal @dec
  props C12 C11
  cases r.header.EncodingType: 0..7 *
  requires RI(r)
  fresh ids values
  ensures imp(err == nil, 0 <= blockIndex && blockIndex < len(r.blockIndex))
  ensures imp(err == nil, len(ids) == r.blockIndex[blockIndex].Count && len(values) == r.blockIndex[blockIndex].Count)
  ensures [C12] imp(err == nil, blockInside(r, blockIndex) && sectionsInside(content(r.file), bOff(r, blockIndex), r.blockIndex[blockIndex].BlockSize))
  ensures [C12] imp(err == nil, idsThere(r.header.EncodingType, content(r.file), bOff(r, blockIndex), len(ids)))
  ensures [C12] imp(err == nil, valsThere(r.header.EncodingType, content(r.file), bOff(r, blockIndex), len(values)))
  ensures [C12] imp(err == nil, idsRead(r.header.EncodingType, ids, content(r.file), bOff(r, blockIndex), len(ids)))
  ensures [C12] imp(err == nil, valsRead(r.header.EncodingType, values, content(r.file), bOff(r, blockIndex), len(values)))

func (*col.Reader).GetPairs (r, blockIdx) (ids, values, err) mode hostile
  flags @dec
  props C12 C11
  cases r.header.EncodingType: 0..7 *
  requires RI(r)
  fresh ids values
  ensures imp(err == nil, blockIdx < len(r.blockIndex))
  ensures imp(err == nil, len(ids) == r.blockIndex[blockIdx].Count && len(values) == r.blockIndex[blockIdx].Count)
  ensures [C12] imp(err == nil, blockInside(r, blockIdx) && sectionsInside(content(r.file), bOff(r, blockIdx), r.blockIndex[blockIdx].BlockSize))
  ensures [C12] imp(err == nil, idsThere(r.header.EncodingType, content(r.file), bOff(r, blockIdx), len(ids)))
  ensures [C12] imp(err == nil, valsThere(r.header.EncodingType, content(r.file), bOff(r, blockIdx), len(values)))
  ensures [C12] imp(err == nil, idsRead(r.header.EncodingType, ids, content(r.file), bOff(r, blockIdx), len(ids)))
  ensures [C12] imp(err == nil, valsRead(r.header.EncodingType, values, content(r.file), bOff(r, blockIdx), len(values)))

// ---- aggregation without filters over arbitrary bytes: C11
func (*col.Reader).Aggregate (r) (a) mode hostile
  props C11
  requires RI(r) && RIsize(r)
func (*col.Reader).AggregateWithOptions (r, opts) (a) mode hostile
  props C11
  requires RI(r) && RIsize(r)
  requires opts.Filter == nil && opts.DenyFilter == nil
  decreases ite(opts.Parallel == 0, 0, 1)
template [C11] (i idx, s []uint64) forall(k, 0, i, s[k] == k)
func (*col.Reader).aggregateParallelWithFooter (r, blockIndices, numWorkers) (a) mode hostile
  flags internal
  props C11
  requires RI(r) && RIsize(r)
  requires 1 < numWorkers && numWorkers <= len(r.blockIndex) && len(blockIndices) <= len(r.blockIndex)
  requires forall(k, 0, len(blockIndices), blockIndices[k] < len(r.blockIndex))
func (*col.Reader).aggregateParallelWithReading (r, blockIndices, opts, numWorkers) (a) mode hostile
  flags internal
  props C11
  requires RI(r) && RIsize(r)
  requires opts.Filter == nil && opts.DenyFilter == nil
  requires 1 < numWorkers && numWorkers <= len(r.blockIndex) && len(blockIndices) <= len(r.blockIndex)
