package main

import (
	"encoding/json"
	"math/rand"

	"github.com/binzume/modelconv/converter"
)

type mtpCase struct {
	Doc cvDoc `json:"doc"`
}

func runMqoToMmd(body json.RawMessage, emit func(Event)) {
	var c mtpCase
	must(json.Unmarshal(body, &c))
	src := c.Doc.build()
	ref := c.Doc.build()
	ref.FixObjectID() // identifiers the bones refer to (decided by C21)
	before := cvOf(ref)
	p, err := converter.NewMQOToMMDConverter(nil).Convert(src)
	ev := Event{"op": "convert", "ok": err == nil, "doc": before, "after": cvOf(src), "p": []int{}}
	if err == nil {
		ev["p"] = projPmx(p, milliNum)
	}
	emit(ev)
}

func init() {
	reg("mqotommd", &Domain{Run: runMqoToMmd, Gen: func(r *rand.Rand, n int) []interface{} {
		res := []interface{}{}
		for i := 0; i < n; i++ {
			g := &gen{r: r, x: milliNum}
			res = append(res, mtpCase{g.cvDoc(cvOpts{step: 80000, bones: true, morphs: true, physics: true, badRefs: true, maxW: 4})})
		}
		return res
	}})
}
