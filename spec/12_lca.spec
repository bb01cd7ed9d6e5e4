package chains

func (*storage).fastBackwardFarthest(s, sn, farthest, other) (l, err)
  requires sn != nil
  requires WF_D(view(sn))
  requires okL(view(sn), farthest) && okL(view(sn), other)
  requires farthest.Height >= other.Height
  let n0 = nOf(view(sn), farthest)
  let h0 = hgt(view(sn), n0)
  inv (?f:chains.link) okL(view(sn), f)
  inv (?f:chains.link) f.Height >= other.Height && f.Height <= h0
  inv (?f:chains.link) nOf(view(sn), f) == anc(view(sn), n0, h0 - f.Height)
  inv (?f:chains.link, ?i:int) i < len(f.Parents)
  inv (?f:chains.link, ?i:int) f.Height - other.Height < pow2(i + 1)
  ensures err == nil ==> okL(view(sn), l) && nOf(view(sn), l) == anc(view(sn), n0, h0 - other.Height) && l.Height == other.Height
  ensures err != nil ==> isIO(err)
  use anc_valid, anc_add

func (*storage).lca(s, id1, id2) (id, err)
  root C02, C07, C08
  requires s.db != nil
  requires WF_D(D)
  requires [C22] lkD >= 1
  let n1 = num(D, id1)
  let n2 = num(D, id2)
  inv (?f:chains.link, ?o:chains.link) okL(D, f) && okL(D, o) && f.Height == o.Height && nOf(D, f) != nOf(D, o)
  inv (?f:chains.link, ?o:chains.link) f.Height <= hgt(D, n1) && o.Height <= hgt(D, n2) && nOf(D, f) == anc(D, n1, hgt(D, n1) - f.Height) && nOf(D, o) == anc(D, n2, hgt(D, n2) - o.Height)
  inv (?f:chains.link, ?o:chains.link, ?i:int) f.Height > pow2(i + 1) ==> anc(D, nOf(D, f), pow2(i + 1)) == anc(D, nOf(D, o), pow2(i + 1))
  ensures err == nil ==> has(D, id1) && has(D, id2) && has(D, id) && isLCA(D, num(D, id), n1, n2)
  ensures err != nil ==> isIO(err) || (notFound(err) && !(has(D, id1) && has(D, id2)))
  use anc_valid, anc_add, lca_of, lca_left, lca_right
