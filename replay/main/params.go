package main

import (
	"flag"
	"fmt"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"
)

// the built-in seed peers of each network
var vseeds = map[settings.BlockchainType][]string{
	settings.MainNet:  {"34.253.153.4:6868", "168.119.116.189:6868", "135.181.87.72:6868", "162.55.39.115:6868", "168.119.155.201:6868"},
	settings.TestNet:  {"159.69.126.149:6868", "94.130.105.239:6868", "159.69.126.153:6868", "94.130.172.201:6868", "35.157.247.122:6868"},
	settings.StageNet: {"88.99.185.128:6868", "49.12.15.166:6868", "95.216.205.3:6868", "88.198.179.16:6868", "52.58.254.101:6868"},
}

func vpick(r *vrep, ss ...string) string { return ss[r.rng.Intn(len(ss))] }

func vaddrStr(r *vrep) string {
	switch r.rng.Intn(8) {
	case 0:
		return vpick(r, "", " ", "abc", "1.2.3.4", ":80", "1.2.3.4:", "1.2.3.4:99999", "[::1]", "::1:80", "localhost:80", "1.2.3:4")
	case 1:
		return vpick(r, "[::1]:6868", "[2001:db8::1]:1", "[::]:65535", "[fe80::2]:0", "[fe80::1%eth0]:5", "[::ffff:1.2.3.4]:7")
	case 2:
		return vpick(r, "0.0.0.0:0", "255.255.255.255:65535", "127.0.0.1:6868", "0.0.0.0:6868")
	default:
		return fmt.Sprintf("%d.%d.%d.%d:%d", r.rng.Intn(256), r.rng.Intn(256), r.rng.Intn(256), r.rng.Intn(256), r.rng.Intn(65536))
	}
}

func vlist(r *vrep, el func(*vrep) string) string {
	n := r.rng.Intn(5)
	var l []string
	for i := 0; i < n; i++ {
		switch r.rng.Intn(6) {
		case 0:
			l = append(l, vpick(r, "", " ", "\t "))
		case 1:
			l = append(l, " "+el(r)+vpick(r, "", " ", "\t"))
		default:
			l = append(l, el(r))
		}
	}
	return strings.Join(l, ",")
}

func vgoodAddr(r *vrep) string {
	for {
		if s := vaddrStr(r); r.rng.Intn(12) == 0 || vok(s) {
			return s
		}
	}
}

func vok(s string) bool { _, err := netip.ParseAddrPort(s); return err == nil }

func vver(r *vrep) string {
	if r.rng.Intn(10) == 0 {
		return vpick(r, "", "a", "1.2.3.4", "1.", " 1.2", "-1", "4294967296")
	}
	return vpick(r, "1", "1.5", "1.4", "1.5.7", "0.0.0", "4294967295.4294967295.4294967295", "2.10")
}

// vparseVer is an independent reading of the version format.
func vparseVer(s string) (string, bool) {
	ps := strings.Split(s, ".")
	if len(ps) > 3 {
		return "", false
	}
	n := [3]uint64{}
	for i, p := range ps {
		v, err := strconv.ParseUint(p, 10, 32)
		if err != nil {
			return "", false
		}
		n[i] = v
	}
	return fmt.Sprintf("%d.%d.%d", n[0], n[1], n[2]), true
}

func vchkVersions(r *vrep, what, s string, vs []proto.Version, err error) {
	var want []string
	ok := true
	for _, p := range strings.Split(s, ",") {
		v, g := vparseVer(p)
		ok = ok && g
		want = append(want, v)
	}
	if ok != (err == nil) {
		r.bad("C23", "versions-accept", "%s: the version list %q (well formed: %v) gives error %v", what, s, ok, err)
	} else if ok {
		var got []string
		for _, v := range vs {
			got = append(got, v.String())
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			r.bad("C23", "versions-value", "%s: the version list %q is read as %v", what, s, got)
		}
	}
}

func vchkAddr(r *vrep, what, s string, a proto.TCPAddr) {
	ap, err := netip.ParseAddrPort(s)
	if err != nil {
		if len(a.IP) != 0 || a.Port != 0 {
			r.bad("C23", "addr-empty", "%s: %q is not an address but gives %q", what, s, a.String())
		}
		return
	}
	got, ok := netip.AddrFromSlice(a.IP)
	if !ok || got.Unmap() != ap.Addr().WithZone("").Unmap() || a.Port != int(ap.Port()) {
		r.bad("C23", "addr-value", "%s: the address %q becomes %q", what, s, a.String())
	}
}

func vchkSeeds(r *vrep, what, s string, bt settings.BlockchainType, got []*net.TCPAddr, err error) {
	base, known := vseeds[bt]
	want := append([]string{}, base...)
	ok := known
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		ap, e := netip.ParseAddrPort(p)
		if e != nil {
			ok = false
			continue
		}
		want = append(want, net.TCPAddrFromAddrPort(ap).String())
	}
	if ok != (err == nil) {
		r.bad("C23", "seeds-accept", "%s: the seed peers %q (well formed: %v) give error %v", what, s, ok, err)
		return
	}
	if !ok {
		return
	}
	var gs []string
	for _, a := range got {
		gs = append(gs, a.String())
	}
	if strings.Join(gs, ",") != strings.Join(want, ",") {
		r.bad("C23", "seeds-value", "%s: the seed peers %q are read as %v", what, s, gs)
	}
}

func vname(r *vrep) string {
	switch r.rng.Intn(4) {
	case 0:
		return strings.Repeat("n", 250+r.rng.Intn(12))
	case 1:
		return ""
	case 2:
		return strings.Repeat("\u00e9", 120+r.rng.Intn(16))
	}
	return vpick(r, "a", " ", "forkdetector", "\xff\xfe", "a b\n")
}

func vparams(r *vrep, t *testing.T) {
	s := vlist(r, vgoodAddr)
	bt := []settings.BlockchainType{settings.MainNet, settings.TestNet, settings.StageNet, settings.Custom, 77}[r.rng.Intn(5)]
	r.guard("C23", fmt.Sprintf("parseSeedPeers(%q, %d)", s, bt), func() {
		g, err := parseSeedPeers(s, bt)
		vchkSeeds(r, "parseSeedPeers", s, bt, g, err)
	})
	v := strings.ReplaceAll(vlist(r, vver), " ", vpick(r, "", " "))
	r.guard("C23", fmt.Sprintf("parseVersions(%q)", v), func() {
		g, err := parseVersions(v)
		vchkVersions(r, "parseVersions", v, g, err)
	})
	a := vaddrStr(r)
	r.guard("C23", fmt.Sprintf("checkBind(%q)", a), func() {
		b, err := checkBind(a)
		if (err == nil) != vok(a) {
			r.bad("C23", "bind-accept", "checkBind(%q) gives error %v", a, err)
		} else if err == nil && (!vok(b) || netip.MustParseAddrPort(a) != netip.MustParseAddrPort(b)) {
			r.bad("C23", "bind-value", "checkBind(%q) = %q", a, b)
		}
	})
	r.guard("C23", fmt.Sprintf("parseAddress(%q)", a), func() { vchkAddr(r, "parseAddress", a, parseAddress(a)) })
	n := vname(r)
	r.guard("C23", fmt.Sprintf("checkName(%d bytes)", len(n)), func() {
		g, err := checkName(n)
		if (err == nil) != (len(n) > 0 && len(n) <= 255) || err == nil && g != n {
			r.bad("C23", "name", "checkName of %d bytes gives %d bytes and error %v", len(n), len(g), err)
		}
	})
	vflags(r, t)
}

// vflags runs the whole command-line parser.
func vflags(r *vrep, t *testing.T) {
	nz := func(s, d string) string {
		if s == "" {
			return d
		}
		return s
	}
	api, bind, decl := nz(vgoodAddr(r), "1.1.1.1:1"), nz(vgoodAddr(r), "1.1.1.2:2"), vaddrStr(r)
	name, vs, ps := nz(vname(r), "x"), nz(vlist(r, vver), "1.5"), vlist(r, vgoodAddr)
	bt := vpick(r, "mainnet", "testnet", "stagenet")
	dir := t.TempDir()
	args := []string{"fd", "-db", dir, "-blockchain-type", bt, "-peers", ps, "-api", api, "-net", bind, "-declared-address", decl, "-name", name, "-versions", vs}
	oldC, oldA := flag.CommandLine, os.Args
	defer func() { flag.CommandLine, os.Args = oldC, oldA }()
	flag.CommandLine = flag.NewFlagSet("fd", flag.ContinueOnError)
	os.Args = args
	r.guard("C23", fmt.Sprintf("newParameters%q", args[3:]), func() {
		p, err := newParameters()
		if err != nil {
			if vok(api) && vok(bind) && len(name) <= 255 {
				if _, e1 := parseVersions(vs); e1 == nil {
					if _, e2 := parseSeedPeers(ps, settings.MainNet); e2 == nil {
						r.bad("C23", "params-accept", "newParameters%q fails: %v", args[3:], err)
					}
				}
			}
			return
		}
		if !vok(p.apiBind) || !vok(api) || netip.MustParseAddrPort(p.apiBind) != netip.MustParseAddrPort(api) {
			r.bad("C23", "params-api", "newParameters: -api %q gives %q", api, p.apiBind)
		}
		if !vok(bind) {
			r.bad("C23", "params-bind", "newParameters accepts -net %q", bind)
		}
		vchkAddr(r, "newParameters: -net", bind, p.netBind)
		vchkAddr(r, "newParameters: -declared-address", decl, p.declaredAddress)
		if p.name != name || len(name) > 255 {
			r.bad("C23", "params-name", "newParameters: -name of %d bytes gives %d bytes", len(name), len(p.name))
		}
		vchkVersions(r, "newParameters", vs, p.versions, nil)
		k := map[string]settings.BlockchainType{"mainnet": settings.MainNet, "testnet": settings.TestNet, "stagenet": settings.StageNet}[bt]
		vchkSeeds(r, "newParameters", ps, k, p.seedPeers, nil)
	})
}

func TestVerifParams(t *testing.T) {
	r := newVrep()
	defer r.done()
	for r.more() {
		r.cases++
		r.hist = nil
		vparams(r, t)
	}
}
