package groupsv2

// C35: hexadecimal group and member ids.

func VC35_GroupIDs() {
	b := vfBytes("b", 16)
	h := idToHex(b)
	u := HexToUUID(h)
	vfAssert(len(h) == 32 && len(u) == 36, "usual lengths")
	val := func(c byte) byte { return byte(vfIte64(c >= 'a', uint64(c-'a'+10), uint64(c-'0'))) }
	ok, j := true, 0
	for i := 0; i < 36; {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			ok = vfAnd(ok, u[i] == '-')
			i++
			continue
		}
		ok = vfAnd(ok, val(u[i])<<4|val(u[i+1]) == b[j])
		i += 2
		j++
	}
	vfAssert(ok, "the UUID shows the id's bytes in order")
	vfReach("uuid")
}
