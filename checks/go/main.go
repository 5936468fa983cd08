// Runs the cases of the units of the Go checks:  vp -list | vp -unit I -start K -shm F -out F
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

type Res struct {
	Names   []string
	Viol    [][2]interface{}
	Next    int
	Done    bool
	Trans   int64
	Secs    float64
	Samples []string
}

func main() {
	list := flag.Bool("list", false, "")
	check := flag.String("check", "N01", "")
	tier := flag.String("tier", "quick", "")
	unit := flag.Int("unit", 0, "")
	start := flag.Int("start", 0, "")
	stop := flag.Int("stop", -1, "")
	shm := flag.String("shm", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	runtime.LockOSThread()
	thorough = *tier == "thorough"
	loadCurves()
	var units []Unit
	if *check == "N01" {
		units = append(gcUnits(), valueUnits()...)
	} else {
		var ops []gcOp
		ops = append(ops, fieldGC()...)
		for _, k := range order {
			ops = append(ops, curveGC(CV[k])...)
		}
		units = append(units, Unit{"single operations", balanceUnit(func(y yield) {
			for _, o := range ops {
				o := o
				y(o.name, func() string { only = -1; return o.f() })
			}
		})})
		for _, v := range valueUnits() {
			if !thorough && (strings.Contains(v.name, "secp256k1") || strings.Contains(v.name, "E-222") || strings.Contains(v.name, "M-221")) {
				continue
			}
			units = append(units, Unit{v.name, balanceUnit(v.gen)})
		}
		// nothing is released while it is referenced, and a whole graph of objects that is dropped is released
		units = append(units, gcUnits()...)
		for i := 0; i < 4; i++ {
			units = append(units, Unit{fmt.Sprintf("dropped graphs part %d", i), balanceUnit(graphUnit(CV[[]string{"small-ws", "small-te"}[i%2]], 1, i, 4))})
		}
	}
	if *list {
		for _, u := range units {
			fmt.Println(u.name)
		}
		return
	}
	f, err := os.OpenFile(*shm, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	f.Truncate(4096)
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	prog := (*int64)(unsafe.Pointer(&mem[0]))
	var r Res
	t0 := time.Now()
	i := 0
	full := false
	names := map[string]bool{}
	func() {
		defer func() {
			if e := recover(); e != nil && e != "stop" {
				panic(e)
			}
		}()
		units[*unit].gen(func(name string, fn func() string) {
			if i >= *start {
				*prog = int64(i)
				n := copy(mem[16:4000], name)
				mem[16+n] = 0
				var e string
				msg := try(func() { e = fn() })
				off()
				if msg != "" {
					e = msg
				}
				names[name] = true
				r.Trans++
				if len(r.Samples) < 2 && i%41 == 7 {
					r.Samples = append(r.Samples, name)
				}
				if e != "" {
					r.Viol = append(r.Viol, [2]interface{}{i, name + ": " + e})
				}
				if i%64 == 0 {
					runtime.GC()
				}
				if len(r.Viol) >= 6 || i == *stop {
					i++
					full = true
					panic("stop")
				}
			}
			i++
		})
		r.Done = true
	}()
	_ = full
	r.Next = i
	r.Secs = time.Since(t0).Seconds()
	r.Trans += collections
	r.Names = []string{fmt.Sprint(len(names))}
	b, _ := json.Marshal(r)
	os.WriteFile(*out+".tmp", b, 0600)
	os.Rename(*out+".tmp", *out)
}
