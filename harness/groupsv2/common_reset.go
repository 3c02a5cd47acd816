package groupsv2

// VfReset forgets the groups and credentials held in memory.
func VfReset() {
	groupsV2 = map[string]*GroupV2{}
	Credentials = nil
}
