package main

const seqRule = "explicit-state search: a state is the server's whole heap (locks excluded) + reference keyspace + virtual clock; every operation of the family's alphabet is executed from every state up to the depth through the real parser, connection handler and executors, its reply compared with the reference, and every new state read back completely"

var seqAssume = []string{
	"bounded: alphabets, initial states and depths as listed in DESIGN.md",
	"error wording and the spelling of empty collections (null or empty) are not compared",
	"the reference model (mc/src/model) is the trusted reading of the Redis documentation",
}

func init() {
	checks["C01"] = &Check{Level: "model_checking", Rule: seqRule, Cases: withSizes(stringFams, stringSize, append([]family{widthFam()}, stringTwins()...)...), Assume: seqAssume}
	checks["C02"] = &Check{Level: "model_checking", Rule: seqRule, Cases: withSizes(hashFams, hashSize, append([]family{hashWidthFam()}, hashTwins()...)...), Assume: seqAssume}
	checks["C03"] = &Check{Level: "model_checking", Rule: seqRule, Cases: withSizes(listFams, listSize, listTwins()...), Assume: seqAssume}
	checks["C04"] = &Check{Level: "model_checking", Rule: seqRule, Cases: withSizes(setFams, setSize, setTwins()...), Assume: seqAssume}
	checks["C05"] = &Check{Level: "model_checking", Rule: seqRule, Cases: withSizes(keyFams, keysSize, keyTwins()...), Assume: seqAssume}
	checks["C07"] = &Check{Level: "model_checking", Rule: seqRule, Cases: casesOf(append(append([]family(nil), ttlFams...), ttlTwins()...)), Assume: seqAssume}
}
