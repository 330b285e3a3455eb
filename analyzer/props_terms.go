package main

func init() {
	termRule(termProp{
		id:      "C21",
		text:    "Execute of a program",
		targets: []string{"libs/interpreters/applications Application.Execute"},
	})
	termRule(termProp{
		id:      "C20",
		text:    "Compile of a parsed program",
		targets: []string{"libs/interpreters/applications Application.Compile"},
	})
	termRule(termProp{
		id:      "C22",
		text:    "Execute of a query on a tree",
		targets: []string{"libs/queries/applications Application.Execute"},
	})
	termRule(termProp{
		id:      "C18",
		text:    "Execute of a grammar on bytes",
		targets: []string{"libs/asts/applications Application.Execute"},
		anchors: []string{"token", "block", "line", "elementContent", "elementValue", "channels", "channel", "external"},
	})
	termRule(termProp{
		id:   "C23",
		text: "success of a match",
		targets: []string{
			"libs/asts/domain/trees Line.IsSuccessful",
			"libs/asts/domain/trees Element.IsSuccessful",
			"libs/asts/domain/trees Element.Amount",
			"libs/asts/domain/trees BlockBuilder.Now",
		},
		follow: []string{
			"libs/asts/domain/trees Element.Amount",
			"libs/asts/domain/grammars Container.Name",
		},
	})
	termRule(termProp{
		id:   "C25",
		text: "bytes of a tree",
		targets: []string{
			"libs/asts/domain/trees Tree.Bytes",
			"libs/asts/domain/trees Trees.Bytes",
			"libs/asts/domain/trees Element.Bytes",
			"libs/asts/domain/trees Content.Bytes",
		},
		follow: []string{
			"libs/asts/domain/trees Trees.Bytes",
			"libs/asts/domain/trees Element.Bytes",
			"libs/asts/domain/trees Content.Bytes",
		},
	})
	termRule(termProp{
		id:   "C26",
		text: "Compose of a grammar",
		targets: []string{
			"libs/asts/applications Application.Compose",
		},
	})
	termRule(termProp{
		id:   "C19",
		text: "coverage of a grammar by its suites",
		targets: []string{
			"libs/asts/applications Application.Coverages",
			"libs/asts/applications Application.Covered",
			"libs/asts/applications Application.Uncovered",
			"libs/asts/domain/grammars/coverages Executions.ContainsError",
			"libs/asts/domain/grammars/coverages Coverages.*",
		},
		opaque: []string{"token", "Coverages", "Covered"},
	})
	termRule(termProp{
		id:   "C09",
		text: "stored form of the entities",
		targets: []string{
			"libs/databases/domain/references Adapter.*",
			"libs/databases/domain/references ContentKeysAdapter.*",
			"libs/databases/domain/references ContentKeyAdapter.*",
			"libs/databases/domain/references PointerAdapter.*",
			"libs/databases/domain/references CommitsAdapter.*",
			"libs/databases/domain/references CommitAdapter.*",
			"libs/databases/domain/contents Adapter.*",
			"libs/databases/domain/contents ContentAdapter.*",
			"libs/cryptography/domain/hashtrees Adapter.ToContent",
			"libs/cryptography/domain/hashtrees Adapter.ToHashTree",
			"libs/cryptography/domain/hashtrees LeafAdapter.LeafToContent",
			"libs/cryptography/domain/hashtrees LeafAdapter.ContentToLeaf",
			"libs/cryptography/domain/hashtrees LeafAdapter.ParentLeafToContent",
			"libs/cryptography/domain/hashtrees LeafAdapter.ContentToParentLeaf",
			"libs/cryptography/domain/hashtrees LeavesAdapter.ToContent",
			"libs/cryptography/domain/hashtrees LeavesAdapter.ToLeaves",
			"libs/cryptography/domain/hashtrees CompactAdapter.*",
			"libs/cryptography/domain/hash Adapter.FromBytes",
		},
	})
	termRule(termProp{
		id:   "C12",
		text: "hash trees",
		targets: []string{
			"libs/cryptography/domain/hashtrees Builder.Now",
			"libs/cryptography/domain/hashtrees Adapter.ToLength",
			"libs/cryptography/domain/hashtrees Adapter.ToCompact",
			"libs/cryptography/domain/hashtrees Adapter.ToOrder",
			"libs/cryptography/domain/hashtrees LeafAdapter.LeafToLeaves",
			"libs/cryptography/domain/hashtrees LeafAdapter.ParentLeafToLeaves",
			"libs/cryptography/domain/hashtrees LeafAdapter.ParentLeafToHashTree",
			"libs/cryptography/domain/hashtrees LeavesAdapter.ToHashTree",
			"libs/cryptography/domain/hashtrees Leaves.Merge",
			"libs/cryptography/domain/hash Adapter.FromMultiBytes",
		},
	})
	termRule(termProp{
		id:   "C11",
		text: "commits",
		targets: []string{
			"libs/databases/domain/references CommitBuilder.Now",
			"libs/databases/domain/references CommitsBuilder.Now",
			"libs/databases/domain/references Commits.Fetch",
			"libs/databases/domain/references Commits.Latest",
			"libs/databases/domain/references ContentKeysBuilder.Now",
			"libs/databases/domain/references ContentKeys.*",
			"libs/databases/domain/references Mine.*",
		},
	})
	termRule(termProp{
		id:    "C03",
		text:  "content of the database file and what is read from it, by the contract of os.File for reads and writes",
		files: true,
		targets: []string{
			"libs/databases/applications Application.Open",
			"libs/databases/applications Application.Read",
			"libs/databases/applications Application.ReadAll",
			"libs/databases/applications Application.ReadByHash",
			"libs/databases/applications Application.ReadAllByHashes",
			"libs/databases/applications Application.ContentKeysByKind",
			"libs/databases/applications Application.Commits",
			"libs/databases/applications Application.CommitByHash",
			"libs/databases/applications Application.Commit",
		},
	})
}
