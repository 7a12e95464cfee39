ENUM = "explicit-state model checking: exhaustive breadth-first enumeration of operation sequences of the real code, compared with a reference model after every step"
INPUTS = "exhaustive enumeration of all inputs in a bounded domain, real code compared with a reference model on each"
CHECKS.update({
 "C20": (SCHED, "Every schedule within the budgets of every pair of 2-operation programs and every triple of single operations, each history checked for linearizability; every sequential history to the depth bound on all three maps."),
 "C24": (INPUTS, "Every length of a set of lengths with every pair of integers on both sides of each boundary of the definition."),
 "C26": (ENUM, "Every pair of short strings, every first-difference position of long ones, and every short sequence of operations on a set of string objects."),
 "C28": (ENUM, "Every list of steps up to the depth bound with every failure position; every schedule of concurrent runs within the budgets."),
})
REF = ENUM + "; every start state, every command of the alphabet, every outcome of the random source and of map iteration within the menus"
CHECKS.update({
 "C01": (REF, "Breadth-first search over all sequences of an alphabet of about 50 string commands (all kinds of arguments) from several start states to depth 3 and of a smaller alphabet to depth 5 (thorough: 4 and 7), states merged, all reads compared with the model in every state."),
 "C02": (REF, "As C01 for the list commands; elements include the ones that could be confused with internal markers, positions and counts include both ends of int64."),
 "C03": (REF, "As C01 for the hash commands, with every iteration order of the underlying map within the menu."),
 "C04": (REF, "As C01 for the set commands, with all iteration orders and random draws within the menu; every operation on several sets for all pairs of subsets of four members and a third set."),
 "C05": (REF, "Sequences over all data types sharing key names; after every command every read of every key and type is compared, and every earlier reply is looked at again. Every operation on several sets for all pairs of subsets of four members; commands on objects of 1 to 300 elements."),
})
CHECKS.update({
 "C07": (INPUTS, "Every value tree up to a size over an alphabet of contents, and large contents at buffer boundaries, encoded, compared with an independent codec and decoded again under every way of splitting the bytes."),
 "C08": (INPUTS, "Every byte string over the protocol's alphabet up to a length, every mutation of valid encodings (byte, truncation, insertion), number edge cases, nesting depths; the reader's result compared with an independent decoder; memory and hangs watched."),
})
CRASH = "explicit enumeration of all crash points: every effect on the file and every part of every write, each image recovered by the real server, over the in-memory file system"
CHECKS.update({
 "C09": (INPUTS, "Every sequence of up to 3 (thorough 4) records of a menu and every byte prefix of it, read whole, byte by byte, in uneven pieces, with the end of file alone or with the last bytes and with broken readers; every split in three pieces; record sizes around all powers of 256 and buffer sizes; a product of field values."),
 "C10": (ENUM.replace(", compared with a reference model after every step", "") + "; each with every distribution of the commands over server lives", "Every sequence of up to 2 (small alphabet 3; thorough 3 and 4) modifying commands from three start states, with every way to put restarts between them; all reads compared before the stop and after the restarts; the file must not change. Requests with all argument kinds; long histories cut into lives of every length. Clients that are there while the server starts again, under every schedule within a budget of 1 (thorough 2 or 3)."),
 "C11": (CRASH, "Every history of up to 2 (thorough 4) commands including replica syncs; every byte at which the process can die; the recovered data must be that of a prefix, go on, survive a stop, and again at every crash point of the next life (thorough: three crashes). Writes around the buffer size. The whole server as a program of its own that is killed before every step that can be noticed outside, with writes that arrive in part, up to two times in a row, under every schedule of its clients within a budget of 1 (thorough 2); clients that are there while it recovers from every torn end of the file."),
 "C12": (SCHED, "Every schedule, within the budgets, of a whole running server with up to three clients, replica syncs and a stop; the records of the file are compared with the order of execution that the replies show."),
 "C29": (SCHED + "; and all operation sequences with a fault at every write", "Every sequence of up to 4 operations with writes around the buffer size, a disk that fails at every write with every part; every schedule of up to four goroutines within the budgets; the race detector runs as well."),
})
CHECKS.update({
 "C13": (ENUM.replace(", compared with a reference model after every step", "") + "; and every cut of the transfer at every byte in every way", "Every history of up to 2 (thorough 3) commands synced by a real replica server from a real master server, all reads compared; every byte at which the transfer can be cut by an end, a reset, a network error or a refusal, and every way of delivering it in pieces; the replica must hold exactly its own data then. Master and replica also as two programs side by side: every such history with both going on, ending and starting again; every schedule within the budgets of clients, of a stop and of a kill of either program, before every step that can be noticed outside; a master that pauses at every byte; clients of the replica that are there before the sync, replicas that are there while the master starts again."),
 "C14": (SCHED, "Every schedule within the budgets of writers, up to three syncing replicas of all kinds (reading, leaving, resetting, stalling) and the stop; every file operation of a sync failing; what each replica received is compared with the log, and connections, descriptors and temporary files must be gone."),
})
CHECKS.update({
 "C06": (INPUTS + "; on a running server over the in-memory network", "Every command name with every argument list up to a length over 17 contents from two start states, every list of objects of every RESP kind, every letter case and near miss of the names, every pair of request kinds, large and deep requests, and every malformed byte stream of a large family; each request is sent in one piece with a read of a sentinel, so one reply too many or too few shows at once; the replies are compared with the model."),
 "C21": (SCHED, "Every schedule within the budgets of readers, writers, closers, the peer (sending, closing, half-closing, resetting, stalling) and the idle timer, timers firing early included, with a network error at every call; every sequence of up to 4 (thorough 5) operations at every combination of moments around the idle limit."),
 "C22": (SCHED, "Every schedule within the budgets of a whole running server with two to four clients that pipeline, leave and come back; the replies and the final content must be those of some order of execution of the model; a pipeline cut at every pair of bytes and into reads of every size; more requests than any buffer holds."),
 "C23": (SCHED, "Every schedule within the budgets of a whole running server being stopped by call and by signal, once and several times, before and while serving, with clients writing, idle, stalled and leaving, with replicas, with and without file and replication; ports, connections and the file are looked at when serving returns, and the server is started again."),
})
CHECKS.update({
 "C27": (INPUTS.replace("real code compared with a reference model on each", "the client's parser and printer compared with a reference on each"), "Every line over letters, spaces, quotes and backslashes up to 9 (thorough 11) characters, every pair of bytes in four forms, words of other kinds, long lines; every reply tree up to a size over contents made to be confused: two replies that differ in kind, content or order must print differently, and plain contents must be found in order."),
})
CHECKS.update({
 "C25": (SCHED, "Fifteen ways of leaving for clients and eight for replicas, alone, in pairs and more at once, on a whole running server, every schedule within the budgets and every way to hold up a goroutine; the clients come and go twice, and connections, goroutines, files and the memory reachable from the server are compared between the rounds; every pair of ways a hundred times in turn."),
 "C30": (ENUM + "; every outcome of the random levels within a menu", "Breadth-first search over all sequences of an alphabet of about 40 operations (scores at the ends of the range, equal scores, repeated members) to depth 4 (thorough 5), of one with three levels for every insertion to depth 5 (7), of one with the highest levels to depth 4 (6), of a small one to depth 9 (12); everything readable compared after every step, and every state emptied from both ends; sets of up to 40 (150) members in six orders and seven patterns of levels taken apart in six ways."),
 "C31": ("explicit enumeration of all faults: every use of the disk of a whole running server fails, every part of every write, once and from then on, and every two uses of a life, over the in-memory file system", "Histories of small and large commands and replica syncs, on a new, a filled and a torn file; each faulty life is followed by two lives on a healthy disk whose reads are compared with those of the lives without faults."),
})
CHECKS.update({
 "C32": (ENUM + "; for some sessions every schedule within a deviation budget", "The client program itself runs as a part of the harness, its standard streams and its connection in memory: every sequence of up to 4 (thorough 5) of 8 lines in every way of typing and ending, every sequence of up to 2 (3) of 16 answers, whole, split, cut, broken or followed by an end of the connection, every byte with each of a menu of others at both ends of words, lines and replies, lines and replies around every buffer boundary up to 1 MiB, five sessions under all schedules within the budgets, and sessions with the real server."),
 "C33": (ENUM + "; every schedule of concurrent callers within a deviation budget", "Every sequence of up to 2 (thorough 3) of 31 calls, in both modes and at every level, on a new and an old file; long runs of equal and different calls with pauses; large messages through every call; concurrent callers, the periodic sync and the shutdown under all schedules within the budgets, with failing and partial writes; a whole server with a log through a dozen courses of events."),
 "C34": (INPUTS.replace("real code compared with a reference model on each", "real parser compared with the meaning of the file on each"), "Every subset of the seven options with two values each in three orders and layouts on two starting points, read twice; ten kinds of values for every option; malformed lines; every cut of a file."),
 "C35": (ENUM + "; for some lives every schedule within a deviation budget", "The server program and the client program run together in memory: every sequence of up to 3 (thorough 4) of 20 lines, with every choice of places at which the server program is stopped and started again, replies compared with the model and the data looked at in a last life; restarts and a second server program beside the first under all schedules within the budgets; either program killed before every step that can be noticed outside, once and twice."),
 "C36": (SCHED, "Identifier makers under every schedule within the deviation budgets and with the race detector; every pair of entropy draws that differ in one bit, from seven starting values; all 256 patterns of a failing entropy source over 8 requests; the global random generator, generators handed out and sorted sets used by two or three goroutines under every schedule within the budgets."),
})
