// Package rpc runs operations in a helper process.
package rpc

import (
	"bufio"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"sync"

	"dupiverif/fw"
)

type msg struct {
	ID   int
	Op   string   `json:",omitempty"`
	Args []string `json:",omitempty"`
	Out  string   `json:",omitempty"`
	Err  string   `json:",omitempty"`
}

// Serve answers requests on standard input, each in its own goroutine, until
// the input ends.
func Serve(h func(op string, args []string) (string, error)) {
	var mu sync.Mutex
	enc := json.NewEncoder(os.Stdout)
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var m msg
		if err := dec.Decode(&m); err != nil {
			return
		}
		go func(m msg) {
			out, err := h(m.Op, m.Args)
			r := msg{ID: m.ID, Out: out}
			if err != nil {
				r.Err = err.Error()
			}
			mu.Lock()
			defer mu.Unlock()
			enc.Encode(&r)
		}(m)
	}
}

// Client talks to a helper process.
type Client struct {
	Cmd  *exec.Cmd
	in   io.WriteCloser
	mu   sync.Mutex
	n    int
	wait map[int]chan msg
	dead bool
}

// Result of an operation.
type Result struct {
	Out string
	Err error
}

// ErrDead is given for operations the process did not answer.
var ErrDead = errors.New("helper process ended")

// Start starts the helper process "self child ARGS".
func Start(c *fw.C, args ...string) *Client {
	cl := &Client{wait: map[int]chan msg{}}
	cl.Cmd = exec.Command(c.Aux("self"), append([]string{"child"}, args...)...)
	cl.Cmd.Stderr = os.Stderr
	in, err := cl.Cmd.StdinPipe()
	if err != nil {
		fw.Broken("pipe: %v", err)
	}
	out, err := cl.Cmd.StdoutPipe()
	if err != nil {
		fw.Broken("pipe: %v", err)
	}
	cl.in = in
	if err := cl.Cmd.Start(); err != nil {
		fw.Broken("cannot start helper: %v", err)
	}
	go func() {
		dec := json.NewDecoder(bufio.NewReader(out))
		for {
			var m msg
			if err := dec.Decode(&m); err != nil {
				break
			}
			cl.mu.Lock()
			ch := cl.wait[m.ID]
			delete(cl.wait, m.ID)
			cl.mu.Unlock()
			if ch != nil {
				ch <- m
			}
		}
		cl.mu.Lock()
		defer cl.mu.Unlock()
		cl.dead = true
		for _, ch := range cl.wait {
			close(ch)
		}
		cl.wait = map[int]chan msg{}
	}()
	return cl
}

// Go starts an operation and gives the channel of its result.
func (cl *Client) Go(op string, args ...string) chan Result {
	res := make(chan Result, 1)
	ch := make(chan msg, 1)
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if cl.dead {
		res <- Result{Err: ErrDead}
		return res
	}
	cl.n++
	cl.wait[cl.n] = ch
	b, _ := json.Marshal(&msg{ID: cl.n, Op: op, Args: args})
	cl.in.Write(append(b, '\n'))
	go func() {
		m, ok := <-ch
		switch {
		case !ok:
			res <- Result{Err: ErrDead}
		case m.Err != "":
			res <- Result{Err: errors.New(m.Err)}
		default:
			res <- Result{Out: m.Out}
		}
	}()
	return res
}

// Do runs an operation to its end.
func (cl *Client) Do(op string, args ...string) (string, error) {
	r := <-cl.Go(op, args...)
	return r.Out, r.Err
}

// Kill ends the helper process.
func (cl *Client) Kill() {
	cl.Cmd.Process.Kill()
	cl.Cmd.Wait()
}
