// Package crash records what a program does to the file system (system calls
// of the real run, seen by strace) and builds every state the directory can be
// in after a crash at any moment of it.
package crash

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"
)

// Mark is the directory markers are put in: opening MarkDir/x puts x in the log.
const MarkDir = "/vmc-mark/"

type sys struct {
	name string
	args []string
	ret  int64
	end  bool // completed (otherwise it has only begun)
	inj  bool // made to fail
}

// parse reads the log; each system call gives one event when it completes, and
// one when it begins if others came between (begin is kept for all syncs).
func parse(file string, f func(tid string, begin bool, s *sys) error) error {
	fd, err := os.Open(file)
	if err != nil {
		return err
	}
	defer fd.Close()
	r := bufio.NewReaderSize(fd, 1<<20)
	open := map[string]string{}
	for {
		line, err := r.ReadString('\n')
		if line == "" && err != nil {
			return nil
		}
		line = strings.TrimRight(line, "\n")
		sp := strings.IndexByte(line, ' ')
		if sp < 0 {
			continue
		}
		tid, rest := line[:sp], strings.TrimLeft(line[sp:], " ")
		switch {
		case strings.HasPrefix(rest, "---"), strings.HasPrefix(rest, "+++"), strings.HasPrefix(rest, "syscall_0x"),
			strings.HasSuffix(rest, "<detached ...>"):
			continue
		case strings.HasSuffix(rest, "<unfinished ...>"):
			rest = strings.TrimSuffix(rest, "<unfinished ...>")
			open[tid] = rest
			s, err := parseCall(rest, false)
			if err != nil {
				return err
			}
			if err := f(tid, true, s); err != nil {
				return err
			}
			continue
		case strings.HasPrefix(rest, "<... "):
			i := strings.Index(rest, "resumed>")
			begun, ok := open[tid]
			if i < 0 || !ok {
				return fmt.Errorf("cannot read %.200s", line)
			}
			delete(open, tid)
			s, err := parseCall(begun+rest[i+len("resumed>"):], true)
			if err != nil {
				return err
			}
			if err := f(tid, false, s); err != nil {
				return err
			}
			continue
		}
		s, err := parseCall(rest, true)
		if err != nil {
			return err
		}
		if err := f(tid, true, s); err != nil {
			return err
		}
		if err := f(tid, false, s); err != nil {
			return err
		}
	}
}

func parseCall(l string, end bool) (*sys, error) {
	i := strings.IndexByte(l, '(')
	if i < 0 {
		return nil, fmt.Errorf("cannot read %.200s", l)
	}
	s := &sys{name: l[:i], end: end}
	depth, quote, last := 0, false, i+1
	j := i + 1
	for ; j < len(l); j++ {
		c := l[j]
		if quote {
			if c == '\\' {
				j++
			} else if c == '"' {
				quote = false
			}
			continue
		}
		switch c {
		case '"':
			quote = true
		case '[', '{', '(':
			depth++
		case ']', '}':
			depth--
		case ')':
			if depth == 0 {
				goto done
			}
			depth--
		case ',':
			if depth == 0 {
				s.args = append(s.args, strings.TrimSpace(l[last:j]))
				last = j + 1
			}
		}
	}
done:
	if a := strings.TrimSpace(l[last:j]); a != "" {
		s.args = append(s.args, a)
	}
	if !end {
		return s, nil
	}
	k := strings.LastIndex(l, "= ")
	if k < j {
		return nil, fmt.Errorf("no result in %.200s", l)
	}
	s.inj = strings.HasSuffix(l, "(INJECTED)")
	v := strings.Fields(l[k+2:])[0]
	if v == "?" {
		s.ret = -1
		return s, nil
	}
	var err error
	s.ret, err = strconv.ParseInt(v, 0, 64)
	if err != nil {
		return nil, fmt.Errorf("no result in %.200s", l)
	}
	return s, nil
}

func str(a string) ([]byte, error) {
	if len(a) < 2 || a[0] != '"' || a[len(a)-1] != '"' {
		return nil, fmt.Errorf("not a complete string: %.100s", a)
	}
	a = a[1 : len(a)-1]
	out := make([]byte, 0, len(a)/4)
	for i := 0; i < len(a); i += 4 {
		if i+4 > len(a) || a[i] != '\\' || a[i+1] != 'x' {
			return nil, fmt.Errorf("not a hex string: %.100s", a)
		}
		v, err := strconv.ParseUint(a[i+2:i+4], 16, 8)
		if err != nil {
			return nil, err
		}
		out = append(out, byte(v))
	}
	return out, nil
}

func num(a string) int64 {
	n, err := strconv.ParseInt(a, 0, 64)
	if err != nil {
		return -1
	}
	return n
}
