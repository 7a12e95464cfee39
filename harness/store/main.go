// The harness of persistence: the log, restarts, crashes and the order of the log.
package main

import (
	"fmt"
	"strings"

	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
	"github.com/lxdlam/vertex/vharness/srv"
)

func main() { hl.Main() }

var big = strings.Repeat("0123456789abcdef", 94) // 1504 bytes
var huge = strings.Repeat("x", 9000)

// alphabet are the modifying commands (and some that are refused); values include binary
// ones and such that are as long as the file's buffer.
var alphabet = [][]string{
	{"SET", "k", "v"},
	{"SET", "k", ""},
	{"SET", "j\x00\xff\r\n", "\r\n$3\r\n\x80\xff"},
	{"SET", "n", "5"},
	{"INCR", "n"},
	{"INCRBY", "n", "7"},
	{"DECR", "n"},
	{"DECRBY", "n", "x"}, // refused
	{"APPEND", "k", "w"},
	{"APPEND", "k", big},
	{"MSET", "k", "1", "n", "2"},
	{"DEL", "k", "n"}, // there is no such command
	{"DECRBY", "n", "-9223372036854775807"},
	{"APPEND", "n", "9"},
	{"MSET", "k", "2", "k", "3"},
	{"LINSERT", "l", "AFTER", "b", "y"},
	{"LREM", "l", "-1", "a"},
	{"LTRIM", "l", "5", "9"},
	{"LSET", "l", "-1", "z"},
	{"RPUSH", "l", "c", "", "c"},
	{"HSET", "h", "f", ""},
	{"HDEL", "h", "f", "g", "nope"},
	{"SADD", "t", "b", "\x80"},
	{"SREM", "s", "a", "b", "c", "d"},
	{"LPUSH", "l", "a", "b"},
	{"RPUSH", "l", "a", "\xfe"},
	{"LPOP", "l"},
	{"RPOP", "l"},
	{"LREM", "l", "0", "a"},
	{"LSET", "l", "0", ""},
	{"LTRIM", "l", "1", "-1"},
	{"LINSERT", "l", "BEFORE", "a", "x"},
	{"HSET", "h", "f", "v", "g", "\xff"},
	{"HDEL", "h", "f"},
	{"SADD", "s", "a", "b", "c"},
	{"SREM", "s", "a"},
	{"SPOP", "s"},
	{"SPOP", "s", "2"},
	{"SPOP", "s", "9"},
	{"set", "k", "lower"},
	{"SADD", "s"}, // refused
	{"NOSUCH", "k"},
	{"GET", "k"},
}

// small is a part of it for longer sequences.
var small = [][]string{
	{"SET", "k", "v"}, {"APPEND", "k", "w\xff"}, {"INCR", "n"}, {"MSET", "k", "1", "n", "2"},
	{"RPUSH", "l", "a", "b"}, {"LPOP", "l"}, {"LREM", "l", "-1", "a"}, {"LTRIM", "l", "1", "2"},
	{"HSET", "h", "f", "v"}, {"HDEL", "h", "f"},
	{"SADD", "s", "a", "b", "c"}, {"SPOP", "s", "2"}, {"SREM", "s", "a"}, {"APPEND", "k", huge},
}

// reads show all the data the commands above can make.
var reads = [][]string{
	{"MGET", "k", "n", "m", "j\x00\xff\r\n", "l", "s"}, {"STRLEN", "k"}, {"EXISTS", "k", "n", "m", "l"},
	{"LRANGE", "l", "0", "-1"}, {"LLEN", "l"}, {"LINDEX", "l", "-1"},
	{"HGETALL", "h"}, {"HLEN", "h"},
	{"SMEMBERS", "s"}, {"SMEMBERS", "t"}, {"SMEMBERS", "u"}, {"SCARD", "s"},
}

// odd are requests whose parts are not all bulk strings, or not a command.
var odd = [][]string{
	srv.Raw("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n+simple\r\n"),
	srv.Raw("*3\r\n+SET\r\n+k\r\n$2\r\nv\xff\r\n"),
	srv.Raw("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n:5\r\n"),
	srv.Raw("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$-1\r\n"),
	srv.Raw("*3\r\n$3\r\nSET\r\n$-1\r\n$1\r\nv\r\n"),
	srv.Raw("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n-err\r\n"),
	srv.Raw("*3\r\n$6\r\nAPPEND\r\n$1\r\nk\r\n*1\r\n$1\r\nx\r\n"),
	srv.Raw("*3\r\n$6\r\nAPPEND\r\n$1\r\nk\r\n*0\r\n"),
	srv.Raw("*3\r\n$6\r\nAPPEND\r\n$1\r\nk\r\n*-1\r\n"),
	srv.Raw("*3\r\n$6\r\nINCRBY\r\n$1\r\nn\r\n:4\r\n"),
	srv.Raw("*3\r\n$6\r\nINCRBY\r\n$1\r\nn\r\n+4\r\n"),
	srv.Raw("*4\r\n$5\r\nRPUSH\r\n$1\r\nl\r\n:1\r\n$1\r\na\r\n"),
	srv.Raw("*4\r\n$5\r\nRPUSH\r\n$1\r\nl\r\n$-1\r\n$1\r\nb\r\n"),
	srv.Raw("*4\r\n$4\r\nSADD\r\n$1\r\ns\r\n+a\r\n:7\r\n"),
	srv.Raw("*4\r\n$4\r\nHSET\r\n$1\r\nh\r\n$-1\r\n$1\r\nb\r\n"),
	srv.Raw("*4\r\n$4\r\nHSET\r\n$1\r\nh\r\n:1\r\n:2\r\n"),
	srv.Raw("*3\r\n$4\r\nSPOP\r\n$1\r\ns\r\n:1\r\n"),
	srv.Raw("*3\r\n$4\r\nSPOP\r\n+s\r\n$1\r\n2\r\n"),
	srv.Raw("*3\r\n*1\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n"),
	srv.Raw(":12\r\n"), srv.Raw("*0\r\n"), srv.Raw("$3\r\nSET\r\n"), srv.Raw("*1\r\n$-1\r\n"),
	{"SET", "k", "v"}, {"INCR", "k"}, {"", "k", "v"}, {"SADD", "s", "a", "7"}, {"RPOP", "l"},
}

func show(cmds [][]string) string {
	s := fmt.Sprintf("%q", cmds)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// life runs a server over the database file: it executes the commands and returns what can
// be read before them, after them, and the file at both moments and after the stop.
type life struct {
	before, after      string
	fileStart, fileEnd []byte
	replies            []hl.Val
}

func dump(c *srv.Client) string {
	d, err := c.Reads(reads)
	if err != nil {
		mc.Fail("reading failed: %v", err)
	}
	return d
}

func run(cmds [][]string, first bool) (x life) {
	s := srv.Start(srv.Conf(srv.File))
	if s == nil {
		mc.Fail("the server does not start")
	}
	x.fileStart, _ = mc.FSGet(srv.File)
	c := srv.Dial(srv.Port)
	if c == nil {
		mc.Fail("the server does not accept a client")
	}
	if !first {
		x.before = dump(c)
	}
	if len(cmds) > 0 {
		var err error
		x.replies, err = c.All(cmds)
		if err != nil {
			mc.Fail("no reply: %v", err)
		}
		x.after = dump(c)
	} else {
		x.after = x.before
	}
	c.Close()
	s.Stop()
	x.fileEnd, _ = mc.FSGet(srv.File)
	return
}
