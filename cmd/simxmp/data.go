package main

// Entry of data/props.json: a property in canonical form (saved as it is read).
type Entry struct {
	P     Prop       `json:"p"`
	Alts  [][]string `json:"a,omitempty"` // per text leaf: values known to be canonical there
	Split bool       `json:"s,omitempty"` // any subset of the leaves is canonical too
}

type dataFile struct {
	Entries  []Entry           `json:"entries"`
	Prefixes map[string]string `json:"prefixes"` // usual prefix per URI
}
