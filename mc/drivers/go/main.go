// Drives the Go parser library through its public interface; same commands as bindrv.c.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"

	def "github.com/COVESA/vss-tools/binary/go_parser/datamodel"
	"github.com/COVESA/vss-tools/binary/go_parser/parserlib"
)

var out *bufio.Writer
var nodes []*def.Node_t
var index map[*def.Node_t]int

func collect(h *def.Node_t) {
	index[h] = len(nodes)
	nodes = append(nodes, h)
	for i := 0; i < parserlib.VSSgetNumOfChildren(h); i++ {
		collect(parserlib.VSSgetChild(h, i))
	}
}

func idx(h *def.Node_t) int {
	if h == nil {
		return -1
	}
	if i, ok := index[h]; ok {
		return i
	}
	return -2
}

func hex(s string) {
	if s == "" {
		out.WriteString(" -")
		return
	}
	fmt.Fprintf(out, " %x", s)
}

func dump(h *def.Node_t) {
	names := []string{"?", "sensor", "actuator", "attribute", "branch", "struct", "property"}
	t := int(parserlib.VSSgetType(h))
	tn := "?"
	if t >= 0 && t <= 6 {
		tn = names[t]
	}
	fmt.Fprintf(out, "N %d %d %d %s", idx(h), idx(parserlib.VSSgetParent(h)), parserlib.VSSgetNumOfChildren(h), tn)
	for _, s := range []string{parserlib.VSSgetName(h), parserlib.VSSgetUUID(h), parserlib.VSSgetDescr(h), parserlib.VSSgetDatatype(h),
		h.Min, h.Max, parserlib.VSSgetUnit(h), h.DefaultAllowed} {
		hex(s)
	}
	fmt.Fprintf(out, " %d %d", parserlib.VSSgetValidation(h), parserlib.VSSgetNumOfAllowedElements(h))
	for i := 0; i < parserlib.VSSgetNumOfAllowedElements(h); i++ {
		hex(parserlib.VSSgetAllowedElement(h, i))
	}
	out.WriteString("\n")
	if parserlib.VSSgetChild(h, parserlib.VSSgetNumOfChildren(h)) != nil {
		out.WriteString("child out of range\n")
	}
}

func atoi(s string) int {
	i, _ := strconv.Atoi(s)
	return i
}

func main() {
	in, _ := os.ReadFile(os.Args[1])
	of, _ := os.Create(os.Args[2])
	out = bufio.NewWriter(of)
	var root *def.Node_t
	for _, line := range strings.Split(string(in), "\n") {
		if line == "" {
			continue
		}
		f := strings.Split(line, "\t")
		switch f[0] {
		case "R":
			root = parserlib.VSSReadTree(f[1])
			nodes = nil
			index = map[*def.Node_t]int{}
			if root != nil {
				collect(root)
			}
			fmt.Fprintf(out, "R %d\n", len(nodes))
		case "D":
			for _, h := range nodes {
				dump(h)
			}
		case "W":
			parserlib.VSSWriteTree(f[1], root)
			out.WriteString("W\n")
		case "L":
			fmt.Fprintf(out, "L %d\n", parserlib.VSSGetLeafNodesList(nodes[atoi(f[2])], f[1]))
		case "U":
			fmt.Fprintf(out, "U %d\n", parserlib.VSSGetUuidList(nodes[atoi(f[2])], f[1]))
		case "S":
			max := atoi(f[4])
			validation := -1
			data, found := parserlib.VSSsearchNodes(f[5], nodes[atoi(f[1])], max, f[2] == "1", f[3] == "1", len(f)-6, f[6:], &validation)
			fmt.Fprintf(out, "S %d %d", found, validation)
			for i := 0; i < found && i < max; i++ {
				fmt.Fprintf(out, " %d:%s", idx(data[i].NodeHandle), data[i].NodePath)
			}
			out.WriteString("\n")
		}
	}
	out.WriteString("END\n")
	out.Flush()
	of.Close()
}
