package main

import "vtools/instr"

type buildCfg struct {
	name         string
	harness      string // directory under /verif/harness
	race         bool
	quickS       int // internal deadline in seconds
	thoroughS    int
	thoroughOnly bool
	plain        bool // compiled from the code as it is
}

type config struct {
	level        string
	technique    string
	rule         string
	bounds       string
	assumptions  []string
	builds       []buildCfg
	instrument   []string // packages of the module compiled from instrumented copies
	instrHarness []string // harness packages compiled from instrumented copies
	redirect     []instr.Redirect
}

// notApplicable holds the reasons for properties without a check.
var notApplicable = map[string]string{}

var configs = map[string]*config{
	"C17": {level: "model_checking", technique: "exhaustive operation-sequence exploration of the real code against a map model",
		bounds: "all sequences of up to 4 stores over 18 keys and up to 5 (thorough 6) over 8 keys, then all lookups and the inversion",
		builds: []buildCfg{{name: "seq", harness: "h17"}}},
	"C02": {level: "model_checking", technique: "exhaustive enumeration of volume-building programs, checked against a tree model",
		bounds: "all sequences of <=3 (thorough 4) additions over 14; directory sizes x name lengths; every name length to 300 (1200); symlink targets x positions; all size triples over 15 sizes",
		builds: []buildCfg{{name: "seq", harness: "h02"}}},
	"C03": {level: "model_checking", technique: "exhaustive exploration of operation sequences on one walker, differential against a fresh walker",
		bounds: "all sequences of 3 over 90 operations and of 4 (thorough 5) over 18 on a tree with equal names at several levels, links and failing lookups",
		builds: []buildCfg{{name: "seq", harness: "h03"}}},
	"C04": {level: "fault_enumeration", technique: "exhaustive enumeration of directory shapes, resume offsets, failing reads and truncation points on the real iterator",
		rule:   "one case per directory shape (entries x name length x kind x directory) and, inside it, every resume offset, every failing read and every truncation byte; distinct cases are distinct shapes or operations",
		bounds: "11 entry counts x 15 name lengths x 5 kinds x 2 directories x 4 base addresses (thorough 45 x 65); all reads and all truncation bytes of 4x4x5x2 shapes",
		builds: []buildCfg{{name: "seq", harness: "h04"}}},
	"C05": {level: "model_checking", technique: "exhaustive enumeration of volumes and of codec field values, read back by an independent ECMA-119/SUSP/RRIP reader",
		bounds: "the volume spaces of C02 plus directories of up to 300 entries; volumes of <=3 files with a failing write at every half sector or one unreadable file; codec fields over 8 numbers, 5 times, all lengths",
		builds: []buildCfg{{name: "seq", harness: "h05"}}},
	"C01": {level: "model_checking", technique: "exhaustive enumeration of burns and loads on the real code, compared byte for byte with the objects given",
		bounds: "all manifests of <=3 files over 4 (thorough 7) sizes with every sharing of URLs, declared or probed sizes and cache modes; 17 vdisc URL spellings x 24 file URL spellings in pairs; sizes around 4 GiB",
		builds: []buildCfg{{name: "seq", harness: "h01"}}},
	"C23": {level: "fault_enumeration", technique: "exhaustive fault injection at every storage call of a burn; exhaustive truncation and corruption of burned vdiscs",
		rule:   "one case per (manifest, failing storage call and way of failing) and per (burned vdisc, truncation length, flipped or removed byte); distinct cases are distinct damage or store contents",
		bounds: "0-2 files x 2 name lengths x earlier vdisc or none x every storage call failing (thorough: every pair); every truncation length, every byte x 4 flips, every removed byte of 6 vdiscs, compressed and not; 26 files that are not vdiscs",
		builds: []buildCfg{{name: "seq", harness: "h23"}}},
	"C06": {level: "model_checking", technique: "exhaustive operation-sequence exploration of every object kind against a byte-string model, with every source read failing",
		bounds: "13 object kinds and compositions of <=4 parts of <=3 bytes; every positional read; all sequences of 3 (thorough 4) operations over 19; every source read failing or ending early at every byte, two reads deep",
		builds: []buildCfg{{name: "seq", harness: "h06"}}},
	"C14": {level: "model_checking", technique: "exhaustive enumeration of server answers to the real remote-object reads, probes and removals, against a byte-string model",
		bounds:      "objects of 1-4 bytes, every offset and length, declared sizes exact, one off or probed; answers: 10 statuses x 16 Content-Range forms x 6 Content-Length x 6 bodies and transport errors; 8 probe and 7 fallback answers; two reads deep",
		assumptions: []string{"the bytes of an answer are those of the position its Content-Range names"},
		builds:      []buildCfg{{name: "seq", harness: "h14"}}},
	"C15": {level: "model_checking", technique: "exhaustive exploration of attempt-outcome sequences through the real retrying and authorizing transports",
		bounds:     "16 outcomes per attempt, up to 3 (thorough 4) repeated attempts, 3 methods x 4 bodies x 3 header sets x 3 transport stacks, a second request; every attempt up to the third outlasting the time allowed",
		instrument: []string{"all"}, instrHarness: []string{"h15"},
		builds: []buildCfg{{name: "seq", harness: "h15"}}},
	"C11": {level: "model_checking", technique: "exhaustive interleaving exploration of the real visitor under a controlled scheduler with fault and cancellation injection, and a race monitor over the same schedules",
		bounds:     "all trees of <=4 (thorough 5) directories, concurrency 1-3 and default, both orders, all predicates; <=1 (thorough 2) preemptions, one failing callback or cancellation at any point",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h11"}, {name: "race", harness: "h11", race: true}}},
	"C07": {level: "model_checking", technique: "exhaustive interleaving exploration of the real memory cache under a controlled scheduler with source errors, and a race monitor over the same schedules",
		bounds:     "2 readers x 1-2 reads, 3 readers x 1 read, 1 reader x 3 reads over 7 reads of 2 objects of 3 blocks; 1-3 buffers; read-ahead off or 2 blocks with 1-2 tokens; views shared or not; <=2 delays for 2 single reads, else <=1 (thorough 3 and 2), and all non-preemptive schedules of 2 single reads; <=1 source error",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h07"}, {name: "race", harness: "h07", race: true}}},
	"C18": {level: "model_checking", technique: "exhaustive enumeration of read histories and read-ahead completion orders on the real read-ahead code, and interleaving exploration of concurrent readers under a controlled scheduler with a race monitor",
		bounds:     "histories of 5 steps (thorough 6) from 6 reads of one object of 1-5 blocks, 4 steps (thorough 5) over two objects, completions in any order between reads, <=1 source error; 2 concurrent readers x 2 reads, <=2 preemptions (thorough 3); windows 0-3, tokens 0-3",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h18"}, {name: "race", harness: "h18", race: true}}},
	"C12": {level: "model_checking", technique: "exhaustive interleaving exploration of the real command pool under a controlled scheduler, and a race monitor over the same schedules",
		bounds:     "1-2 devices, 1-2 workers (thorough 3), up to 3 commands per device alone and 1 (thorough 2) with two devices, channels unbuffered or of 5, input ended before or after the responses, pool closed in the end or at any time, handler keeping or replacing its buffer; <=2 preemptions (thorough 3)",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h12"}, {name: "race", harness: "h12", race: true}}},
	"C08": {level: "model_checking", technique: "exhaustive interleaving exploration of the real disk cache over an in-memory file system under a controlled scheduler with cache and source errors, and a race monitor over the same schedules",
		bounds:     "2 readers x 1-2 reads or 1 reader x 2 reads over 4-6 reads of 2 objects of 2 blocks; cache empty, complete, mislabelled or unlabelled; one process or two; read-ahead, garbage collection; <=2 delays for 2 single reads, else <=1 (thorough 3 and 2); <=1 failing call",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h08"}, {name: "race", harness: "h08", race: true}}},
	"C13": {level: "model_checking", technique: "exhaustive interleaving exploration of the real upload code against a store model under a controlled scheduler with failing requests and bodies, and a race monitor over the same schedules",
		bounds:     "all single uploads of up to 2 writes or streams of up to 9 units (part size scaled to units) and of 3 operations in any order, delay bound 2 (thorough 3), one failing request; a real-size pass over the part limits",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "github.com/aws/aws-sdk-go/service/s3/s3manager", To: "github.com/NVIDIA/vdisc/zzverif/sm"}},
		builds: []buildCfg{{name: "sched", harness: "h13"}, {name: "race", harness: "h13", race: true}, {name: "sdk", harness: "h13b", plain: true}}},
	"C16": {level: "model_checking", technique: "exhaustive enumeration of request, wait and resolver-answer histories in virtual time and interleaving exploration of concurrent requests on the real transport under a controlled scheduler, with a race monitor",
		bounds:     "histories of <=4 (thorough 5) lookups/losses over 3 hosts and 5 (6) over 2 for maximum host counts 0-2; 2-3 concurrent hosts with 1-2 requests, delay bound 2 (3), one resolver failure or one early timer",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "net/http", To: "github.com/NVIDIA/vdisc/zzverif/xhttp"}},
		builds: []buildCfg{{name: "sched", harness: "h16"}, {name: "race", harness: "h16", race: true}, {name: "net", harness: "h16b", plain: true}}},
	"C25": {level: "model_checking", technique: "interleaving exploration of concurrent callers of the real driver under a controlled scheduler against every answer of a stand-in store, with a race monitor",
		bounds:     "one caller with every lookup answer; 2 callers delay bound 3 (thorough 4), 2 callers x 2 buckets and 3 callers delay bound 2 (3)",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "net/http", To: "github.com/NVIDIA/vdisc/zzverif/xhttp"}, {From: "net", To: "github.com/NVIDIA/vdisc/zzverif/xnet"}},
		builds: []buildCfg{{name: "sched", harness: "h25"}, {name: "race", harness: "h25", race: true}}},
	"C21": {level: "model_checking", technique: "exhaustive enumeration of bucket contents, page splits, marker conventions and page faults on the real drivers against a stand-in object store",
		bounds:     "every subset of two 6-8 key alphabets x page limits 1,2,3,1000 (thorough also 4,5) x listed directories x both marker conventions; one failing or malformed page",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "net/http", To: "github.com/NVIDIA/vdisc/zzverif/xhttp"}, {From: "net", To: "github.com/NVIDIA/vdisc/zzverif/xnet"}},
		builds: []buildCfg{{name: "sched", harness: "h21"}}},
	"C24": {level: "model_checking", technique: "exhaustive enumeration of option-setting sequences, getters and request kinds on the real drivers against a stand-in server",
		bounds:     "all sequences of <=5 (thorough 6) settings read back by every getter and of <=3 (4) used by every request kind",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "net/http", To: "github.com/NVIDIA/vdisc/zzverif/xhttp"}, {From: "net", To: "github.com/NVIDIA/vdisc/zzverif/xnet"}},
		builds: []buildCfg{{name: "sched", harness: "h24"}}},
	"C22": {level: "model_checking", technique: "exhaustive enumeration of operation sequences on the real drivers against a reference model, and interleaving exploration of clients under a controlled scheduler with a linearizability oracle and a race monitor",
		bounds:     "all sequences of <=5 (thorough 6) operations over a small path alphabet; all inline writes of <=4 (5) pieces; 2 clients x 2 and 3 clients x 1 operations with delay bound 2 (3)",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "seq", harness: "h22", plain: true}, {name: "sched", harness: "h22c"}, {name: "race", harness: "h22c", race: true}}},
	"C28": {level: "model_checking", technique: "exhaustive enumeration of operations, URL spellings, driver capabilities and registry histories on the real code against a reference model, and interleaving exploration of registry users under a controlled scheduler with a linearizability oracle and a race monitor",
		bounds:     "every operation x URL spelling; registry histories of <=6 (thorough 7) operations; 2 x 2 and 3 x 1 concurrent users with delay bound 3 (4)",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "seq", harness: "h28", plain: true}, {name: "sched", harness: "h28c"}, {name: "race", harness: "h28c", race: true}}},
	"C26": {level: "fault_enumeration", technique: "exhaustive enumeration of cache directory contents, threshold answers, failing storage calls and concurrent changes on the real code over a real directory",
		bounds:     "three block slots x 7 contents x every kind of other file; every threshold answer; one (thorough two) failing call or concurrent removal/publication at every storage call; 128 blocks with a 64 handle limit",
		instrument: []string{"all"},
		builds:     []buildCfg{{name: "sched", harness: "h26"}}},
	"C19": {level: "model_checking", technique: "exhaustive enumeration of kernel request sequences on the real file system against the volume's tree, and interleaving exploration of concurrent requests under a controlled scheduler with a race monitor",
		bounds:     "all sequences of <=3 (thorough 4) requests over a tree of 5 paths and of <=5 (6) over a reduced alphabet, with a cache keeping all, one or no entries; <=2 (3) requests or a directory listing with one failing image, extent or file read; every directory size x name length x buffer size x resume offset; 2 requests delay bound 2 (3) and 3 requests delay bound 1 (2)",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "github.com/jacobsa/fuse", To: "github.com/NVIDIA/vdisc/zzverif/xfuse"}, {From: "github.com/jacobsa/fuse/fuseutil", To: "github.com/NVIDIA/vdisc/zzverif/xfuseutil"}, {From: "github.com/dgraph-io/ristretto", To: "github.com/NVIDIA/vdisc/zzverif/xristretto"}},
		builds: []buildCfg{{name: "sched", harness: "h19"}, {name: "race", harness: "h19", race: true}}},
	"C10": {level: "fault_enumeration", technique: "exhaustive enumeration of writer histories, crash points and lost unsynced effects over recorded system calls of the real code, restarting it on every resulting directory, and of every failing call",
		bounds: "all sequences of <=6 (thorough 7) operations of two writers and a reader; every crash point x lost subset of every program of one writer (<=2 (3) writes) and of two interleaved writers; every failing call",
		builds: []buildCfg{{name: "seq", harness: "h10", plain: true}}},
	"C09": {level: "fault_enumeration", technique: "exhaustive enumeration of caching histories, crash points and lost unsynced effects over recorded system calls of the real code, restarting it on every resulting directory",
		bounds: "programs of <=2 (thorough 3) operations over read, read-ahead and garbage collection from an empty, cached or foreign-labelled cache; every crash point x lost subset, then every read, check and collection after restart",
		builds: []buildCfg{{name: "seq", harness: "h09", plain: true}}},
	"C20": {level: "model_checking", technique: "exhaustive enumeration of acquire, release and process-death sequences of holders in two real processes on the real code against a lock model",
		bounds: "all sequences of <=5 (thorough 6) operations of 3 holders in 2 processes on one object, <=4 (5) on a missing one, and <=5 (6) of 2 holders in 2 processes on both",
		builds: []buildCfg{{name: "seq", harness: "h20", plain: true}}},
	"C27": {level: "model_checking", technique: "exhaustive enumeration of commands, addresses, lengths, buffer layouts and image read outcomes given to the real command handler through the command pool, against a model of the device",
		bounds:     "4 read commands x up to 29 addresses x 15 lengths x 4 buffer layouts on devices of 1, 3, 300 and 2^22 blocks, every image read failing, short or reporting the end early (thorough two); sequences of 3 (4) reads; every other command of defined length x 6 x 8 parameters x 20 buffer lengths",
		instrument: []string{"all"}, redirect: []instr.Redirect{{From: "github.com/tnarg/go-tcmu", To: "github.com/NVIDIA/vdisc/zzverif/xtcmu"}, {From: "github.com/NVIDIA/vdisc/pkg/kmod", To: "github.com/NVIDIA/vdisc/zzverif/xkmod"}},
		builds: []buildCfg{{name: "sched", harness: "h27"}}},
}
