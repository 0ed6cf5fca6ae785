package lib

import (
	"fmt"
	"io"
	"log"

	"github.com/flawedmatrix/gocryptsftp/zzverif/vrt"
)

// Messages collects everything that is printed or logged.
type Messages struct {
	Text string
	// Exit is called by the functions that print and end the process.
	Exit func()
}

func (m *Messages) add(s string) { m.Text += s + "|" }

// InstallMessages replaces the functions that print and log; what is written to the
// standard streams of the file system arrives as well.
func InstallMessages(fs *MemFS) *Messages {
	m := &Messages{Exit: func() { vrt.Stop() }}
	fs.Std = func(b []byte) { m.add(string(b)) }
	p := func(a ...interface{}) { m.add(fmt.Sprint(a...)) }
	pf := func(f string, a ...interface{}) { m.add(fmt.Sprintf(f, a...)) }
	pl := func(a ...interface{}) { m.add(fmt.Sprintln(a...)) }
	end := func() { m.Exit() }
	vrt.Override("fmt.Print", func(a ...interface{}) (int, error) { p(a...); return 0, nil })
	vrt.Override("fmt.Printf", func(f string, a ...interface{}) (int, error) { pf(f, a...); return 0, nil })
	vrt.Override("fmt.Println", func(a ...interface{}) (int, error) { pl(a...); return 0, nil })
	vrt.Override("log.Print", p)
	vrt.Override("log.Printf", pf)
	vrt.Override("log.Println", pl)
	vrt.Override("log.Fatal", func(a ...interface{}) { p(a...); end() })
	vrt.Override("log.Fatalf", func(f string, a ...interface{}) { pf(f, a...); end() })
	vrt.Override("log.Fatalln", func(a ...interface{}) { pl(a...); end() })
	vrt.Override("log.Panic", func(a ...interface{}) { p(a...); panic(fmt.Sprint(a...)) })
	vrt.Override("log.Panicf", func(f string, a ...interface{}) { pf(f, a...); panic(fmt.Sprintf(f, a...)) })
	vrt.Override("log.Panicln", func(a ...interface{}) { pl(a...); panic(fmt.Sprintln(a...)) })
	vrt.Override("log.New", func(w io.Writer, pre string, fl int) *log.Logger { return new(log.Logger) })
	vrt.Override("(*log.Logger).Print", func(_ *log.Logger, a ...interface{}) { p(a...) })
	vrt.Override("(*log.Logger).Printf", func(_ *log.Logger, f string, a ...interface{}) { pf(f, a...) })
	vrt.Override("(*log.Logger).Println", func(_ *log.Logger, a ...interface{}) { pl(a...) })
	vrt.Override("(*log.Logger).Output", func(_ *log.Logger, d int, s string) error { m.add(s); return nil })
	vrt.Override("(*log.Logger).Fatal", func(_ *log.Logger, a ...interface{}) { p(a...); end() })
	vrt.Override("(*log.Logger).Fatalf", func(_ *log.Logger, f string, a ...interface{}) { pf(f, a...); end() })
	vrt.Override("(*log.Logger).Fatalln", func(_ *log.Logger, a ...interface{}) { pl(a...); end() })
	vrt.Override("(*log.Logger).Panic", func(_ *log.Logger, a ...interface{}) { p(a...); panic(fmt.Sprint(a...)) })
	vrt.Override("(*log.Logger).Panicf", func(_ *log.Logger, f string, a ...interface{}) { pf(f, a...); panic(fmt.Sprintf(f, a...)) })
	return m
}

// Error is the text of an error.
func Error(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}
