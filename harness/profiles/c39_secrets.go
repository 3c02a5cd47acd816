package profiles

// C39: secrets come from the secure random source, whole.

func VC39_ProfileKey() {
	vfAssert(vfFresh(func() []byte {
		k := GenerateProfileKey()
		if len(k) != 32 {
			panic("length of the profile key")
		}
		return k
	}, nil), "a profile key is random in all its bytes")
	vfReach("generated")
}
