#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text stays reviewable)."""
import json,os
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='stl/'
p('C01','The deque is a faithful double-ended sequence',
 "After any history of calls, and from the zero value or any buffer size, a deque contains exactly the pushed and not yet popped or cleared elements in order: pushes add at the named end and report true, pops and peeks return the element at the named end with true, and an empty deque yields the zero element and false. Growing or shrinking the buffer never loses, duplicates, reorders or invents an element, no call panics, and Size and Empty always agree with the contents. Shrink keeps the contents and reports true exactly when it replaced the buffer by a smaller one.",
 ['histories','inputs'],'every history of Init/PushFront/PushBack/PopFront/PopBack/Front/Back/Shrink/Clear with every element value and buffer size',
 'no test touches the deque; wrap-around, growth while wrapped and shrink while wrapped each need particular histories',
 [S+'deque.gp_int.go'],[('circular buffer with head/tail cursors',S+'deque.gp_int.go'),('doubling when the cursors meet','PushFront/PushBack'),('halving','Shrink')],
 [('head,tail,d','live elements are d[head..tail) cyclically; head==tail means empty','IntDeque')],['return values of every exported method'])
p('C02','The queue is a faithful FIFO',
 "After any history of calls, and from the zero value or any buffer size, a queue contains exactly the pushed and not yet popped or cleared elements in push order: push appends and reports true, pop and front return the oldest element with true, back the newest with true, and an empty queue yields the zero element and false. Growing or shrinking the buffer never loses, duplicates, reorders or invents an element, no call panics, and Size and Empty always agree with the contents. Shrink keeps the contents and reports true exactly when it replaced the buffer by a smaller one.",
 ['histories','inputs'],'every history of Init/Push/Pop/Front/Back/Shrink/Clear with every element value and buffer size',
 'no test touches the queue; wrap-around, growth while wrapped and shrink while wrapped each need particular histories',
 [S+'queue.gp_int.go'],[('circular buffer with head/tail cursors',S+'queue.gp_int.go')],
 [('head,tail,d','live elements are d[head..tail) cyclically; head==tail means empty','IntQueue')],['return values of every exported method'])
p('C03','The stack is a faithful LIFO',
 "After any history of calls, and from the zero value or any buffer size, a stack contains exactly the pushed and not yet popped or cleared elements: push reports true, pop and top return the newest element with true and only pop removes it, and an empty stack yields the zero element and false without a panic. Size and Empty always agree with the contents.",
 ['histories','inputs'],'every history of Init/Push/Pop/Top/Clear with every element value and buffer size',
 'no test touches the stack', [S+'stack.gp_int.go'],[('append/reslice',S+'stack.gp_int.go')],None,['return values of every exported method'])
p('C04','The sort slice keeps exact positions for every index',
 "For every content and every index, inserting at a position inside the slice puts the value exactly there and shifts the rest up by one, and any other position appends; removing a position returns that element, closes the gap and keeps all others in order, while a position outside reports false and changes nothing. Pop returns and removes the last element or reports false when empty, Get returns the element at the index or reports false, and MustGet panics exactly when the index is outside. Push and Insert return the new length, Buffer shows exactly the contents, and this holds for the plain, the tree-node and the file-hash instance (package fs).",
 ['inputs','histories'],'every content (length, capacity, values) and every int index',
 'no test calls these; the interesting cases are the first, last and out-of-range index and a buffer with or without spare capacity',
 [S+'sort_slice.gp_int.go',S+'sort_slice.gp_#inttreenodeb60b.go','fs/sort_slice.gp_#filehashtreenodef199.go'],[('append+copy',S+'sort_slice.gp_int.go')],None,['return values','Buffer()'])
p('C05','The doubly linked list stays a well-formed ring in the specified order',
 "On every well-formed list, each insert, push, pop, remove, move, rotate, splice and reverse call leaves a well-formed ring (walking forward and walking backward visit the same nodes) that contains exactly the specified elements in the specified order, whatever the length and whichever node (first, last, middle, only one, neighbour of the mark) is named. Removed nodes are fully unlinked and may be inserted again, a spliced list ends up empty, and calls that report nil or false change nothing. No such call panics on members of the list.",
 ['histories','inputs'],'every list length and every choice of node and mark in it, hence every history',
 'no test touches the list; every pointer-surgery bug shows only for particular positions (head, back, neighbour, singleton)',
 [S+'list.gp_int.go'],[('pointer surgery on a ring',S+'list.gp_int.go')],[('head','first node of the ring or nil','IntList')],['walks over Next/Prev','Visitor'])
p('C06','The singly linked list keeps exactly its elements in order',
 "On every well-formed list, each push, pop, insert, remove, move, splice and reverse call leaves a nil-terminated chain that contains exactly the specified elements in the specified order, whatever the length and whichever node is named. Removing or moving a node that is not in the list changes nothing and reports nil, a spliced list ends up empty, Len counts the elements, Tail yields the last node and the number of nodes up to it, and no call panics on members of the list. Cycle detection never reports a cycle on a well-formed list.",
 ['histories','inputs'],'every list length and every choice of node and mark, hence every history',
 'no test touches the list',[S+'slist.gp_int.go'],[('pointer surgery behind a dummy head',S+'slist.gp_int.go')],[('head.next','first node or nil','IntSList')],['walks over Next','Len','Visitor'])
p('C07','The heap never loses elements, keeps its bound and its root is extreme',
 "For every content and every history, pushing and popping keep the buffer a permutation of the elements pushed and not yet popped or rejected, keep every element no better than its parent so that the top is an extreme (largest for a max heap, smallest for a min heap), and never index outside the buffer. A positive limit bounds the size: a push on a full heap either rejects the value or replaces the top, and it rejects exactly when the value would rank above the top. Pop and Top on an empty heap report false, Make makes any slice a heap, Reverse reverses, and the validity check agrees with the heap order.",
 ['histories','inputs'],'every slice content and length, both orders, every limit',
 'one test pushes eight values and prints; it compares nothing',[S+'heap.gp_int.go'],[('sift up/down through a hole',S+'heap.gp_int.go')],None,['Top/Pop results','Buffer()'])
p('C08','Comparators are the strict orders they are named after',
 "The lesser comparator holds exactly when the left value is smaller and the greater comparator exactly when it is larger, for every pair of values and for the plain, the tree-node and the file-hash instance (package fs), where nodes compare by their value and file hashes by size, then by hash, and by nothing else; so neither ever holds for equal values. Creation by name yields the named comparator (the empty name means lesser) and panics for any other name, creation by bool yields greater for true and lesser for false, and the printed name names the comparator.",
 ['inputs'],'every pair of values, every name, every comparator value',
 'tests run one comparator on eight values',[S+'functorcmp.gp_int.go',S+'functorcmp.gp_#inttreenodeb60b.go','fs/functorcmp.gp_#filehashtreenodef199.go'],[('switch on the comparator kind',S+'functorcmp.gp_int.go')],None,['results'])
p('C09','Tree edits keep children and visitors walk in order without going wrong',
 "For every tree, adding a child at a position inserts exactly that node there (any other position appends), fetching or removing a position returns exactly that child or reports false and changes nothing else, and the collected values of a node are its own followed by those of each child in order. A fresh forward visitor starts at the node itself and each step goes to the first child if there is one, otherwise to the next sibling of the nearest ancestor-or-self that has one, and stops when none has; a fresh visitor stepped backward starts at the last node of that walk and each step back goes to the last node below the next elder sibling, or to the parent of a first child, and stops at the node itself. Neither direction leaves the subtree, panics, repeats or skips a node. This holds for the tree of integers and for the tree of file hashes (package fs).",
 ['inputs','histories'],'every tree shape, every position and every visitor state reachable from a fresh visitor',
 'no test touches the tree',[S+'tree.gp_int.go','fs/tree.gp_filehash38b3.go'],[('explicit stack of parents and child indexes',S+'tree.gp_int.go')],None,['Children()','Visitor().Next/Prev/Get','All()'])
p('C10','Ranged integers never leave their range and report every overflow',
 "A ranged integer that was created or initialised without error always satisfies min <= value <= max, whatever calls follow, and a call that reports an error leaves it unchanged. Arithmetic returns the exact mathematical result with no error exactly when that result fits both the machine type and the range, and otherwise reports an error instead of a wrapped value; division or remainder by zero reports an error instead of panicking. Increment, decrement and set store the new value exactly when it is in range, and range tests agree with the bounds.",
 ['inputs','histories'],'every 32- and 64-bit value, bound and operand',
 'no test touches them; overflow corners are 2^64 inputs',['math/range_uint32.go','math/range_uint64.go'],[('overflow pre-checks and verify','math/range_uint32.go')],None,['returned value and error','Val/Min/Max'])
p('C11','Bit, byte and word extraction is exact for every index',
 "For every 32-bit value and every index, extracting a bit, byte or word returns exactly that part of the value when the index is inside it and otherwise 0 and an error; bool/int conversions map true to 1, false to 0, and non-zero to true.",
 ['inputs'],'all 2^32 values and all 2^32 indexes','no test touches them',['math/bits_bytes.go','math/bool.go'],[('mask and shift','math/bits_bytes.go')],None,['results'])
p('C12','The primality test is exact for all 32-bit numbers',
 "For every 32-bit number the primality test answers true exactly when the number is prime. The integer square root is never below the true floor square root and at most one above it, and the built-in table lists consecutive primes from 2 in order, covering at least all below 2^16.",
 ['inputs'],'all 2^32 numbers','no test touches it; 2^32 inputs',['math/prime/prime.go','math/prime/prime_data.go'],[('trial division by the table up to the root','math/prime/prime.go')],None,['results'])
p('C13','Comma formatting shows every digit of every number',
 "For every unsigned 64-bit number the comma format is its decimal digits in groups of three separated by commas, with inner groups zero-padded and the first group not padded, so removing the commas gives the number back.",
 ['inputs'],'all 2^64 numbers','no test touches it',['math/uint64.go'],[('divide by 1000 and prepend','math/uint64.go')],None,['result'])
p('C14','Padding is exact, reversible and leaves the input alone',
 "For every input and every block size from 1 to 255, each padding function returns the input followed by 1 to blocksize fill bytes that make the length a multiple of the block size (zero bytes, or the pad length itself), and never writes to the caller's buffer, not even beyond its length. The matching unpadding returns the original for every input (for zero padding: every input not ending in a zero byte), and unpadding malformed or empty data returns without a panic.",
 ['inputs'],'every byte slice (with any spare capacity) and block size','no test touches it',['crypto/','crypto/aes/aes.go'],[('padding functions','crypto/padding.go')],None,['results','the caller\'s buffer'])
p('C15','AES encryption is always undone by a decrypter with the same key',
 "For every valid key and every sequence of messages, a decrypter with the same key returns exactly the messages that an encrypter encrypted, when given the ciphertexts in the same order, for the byte and the string variants alike. Each ciphertext is a positive multiple of the block size, inputs are not modified, an invalid key is reported as an error and not as a usable object, and decrypting data that is not a multiple of the block size, or whose last byte claims more padding than there is data, returns nil instead of panicking.",
 ['inputs','histories'],'every key, message and sequence of messages','no test touches it',['crypto/aes/aes.go'],[('PKCS7 + CBC with the key prefix as IV','crypto/aes/aes.go')],None,['results'])
p('C16','Every hash obeys the hash contract and every method is the named algorithm',
 "Each method constructs the algorithm it names and an unknown method panics; string hashes are the lower-case hex digest of exactly the bytes of the string, prefixed in the long form by the ten-digit length. The composite fingerprint feeds every byte to all its parts and counts it; its digest and text are the 48-bit size followed by fixed six-byte slices of the parts, Sum appends exactly Size bytes to its argument without touching the argument's buffer or the running state, Write accepts all of its input, and Reset returns it to the fresh state. Every created placeholder hash gets its own identity even under concurrent creation, and its Sum appends exactly Size bytes of that identity.",
 ['inputs','histories','schedules'],'every method, input, history of writes/sums/resets and interleaving of creations','no test touches it',['hash/hash.go','hash/finger_print.go','hash/none_hash.go'],[('method switch','hash/hash.go'),('composite hash','hash/finger_print.go'),('id counter','hash/none_hash.go')],None,['digests'])
p('C17','Multi-destination copy delivers every byte to every destination or says so',
 "For every reader, every number of writers and every pattern of read sizes, short writes and errors, a copy that returns no error has delivered exactly the bytes read, in order and once each, to every destination. The first write error or short write stops the copy and is returned, a read error other than end of file is returned after the bytes read with it were delivered, the copy ends without error only when the reader reported its end, and the returned count is the number of bytes in the reads that every destination accepted in full. Two or more destinations are never bypassed by a shortcut that feeds only one of them.",
 ['inputs','fault_sequences'],'every sequence of reader and writer results','no test touches it',['io/io.go'],[('read loop with inner write loop','io/io.go')],None,['destinations','written, err'])
p('C18','The spin lock admits one holder at a time',
 "In every interleaving, at most one goroutine is between a returned lock call and its unlock, a released lock can be acquired again, and unlocking an unlocked lock panics without changing it. Lock returns only after it itself changed the state from free to held in one atomic step, and gives up only by panicking without having acquired it.",
 ['schedules'],'every interleaving of any number of goroutines','no test touches it; schedules cannot be sampled',['sync/spinlock.go'],[('compare-and-swap','sync/spinlock.go')],[('state','0 free, 1 held','SpinLock')],['holders'])
p('C19','The read-write spin lock separates readers and writers',
 "In every interleaving, a writer holds the lock alone: no reader and no other writer is inside at the same time, while any number of readers may be inside together. Every acquisition and release is one atomic step on the reader count guarded by its previous value, releasing restores exactly what acquiring took, a lock call that gives up by panicking leaves nothing held, and releasing a lock not held in that mode panics without changing it.",
 ['schedules'],'every interleaving of any number of readers and writers','no test touches it; schedules cannot be sampled',['sync/spinrwlock.go'],[('reader counter, negative while a writer holds','sync/spinrwlock.go')],[('readerCount','n>0 readers, 0 free, negative writer','RWSpinLock')],['holders'])
p('C20','Zero-copy string and byte conversions alias exactly the same memory',
 "For every string, the zero-copy byte view has the same address and the same length as the string and no capacity beyond it; for every byte slice, the zero-copy string has the same address and length. The pointer accessors return exactly the address of the data, the conversions never leave the data referenced only by an integer, so the collector cannot free it, and the writability test is exactly the comparison of that address with the reference address.",
 ['inputs','schedules'],'every string and slice, every point at which the collector runs','the test prints addresses; collector timing cannot be sampled',['unsafe/string.go'],[('header reinterpretation','unsafe/string.go')],None,['address, length, capacity'])
p('C21','Backtraces name the frame they promise',
 "From every call site, the current-frame functions report the frame that called them, the caller functions report the frame the given number of levels above the caller's caller, and the stack listings start at the promised frame and list consecutive frames outward without gap or repetition, up to fifty of them. A true assertion returns true and a false one panics with the listing that starts at the assertion itself. Each report is made of the function, file, line and program counter of that same frame in the requested form, and a depth beyond the stack yields an empty result instead of a panic.",
 ['programs','inputs'],'every calling program and depth','the tests look at two prefixes from one call site',['debug/backtrace.go'],[('skip counts passed to the runtime','debug/backtrace.go')],None,['returned text'])
p('C22','INI files parse line by line as specified and never panic',
 "For every input, each line is trimmed and blank lines, lines starting with a semicolon and pairs outside a section are ignored, a bracketed line opens (or reopens) that section, and any other line sets in the current section the trimmed text before the first equals sign to the trimmed text after it (or to empty text), later lines overriding earlier ones; lines with an empty key are ignored. Loading by path reports every open or read error and always closes the file, and lookups return the stored value or the given default, and list exactly the stored sections and keys. Nothing panics, whatever the bytes.",
 ['inputs','fault_sequences'],'every byte stream, every read-error position, every lookup','no test touches it',['encoding/ini/ini.go'],[('line loop','encoding/ini/ini.go')],None,['GetString/Sections/Keys','error'])
p('C23','Factories create through exactly the registered creator',
 "After any history, creating by a name or number calls the creator most recently registered and not removed for it, exactly once with exactly the given arguments, and returns its result; without one it returns nil. Registering nil or a taken name and removing an absent one report an error and change nothing, everything else reports success, and the package-level functions behave like one shared factory. In every interleaving the registry is only touched under its lock, which every path releases and which is not held while a creator runs.",
 ['histories','schedules'],'every history and interleaving of register/remove/create','the test there does not touch the factories',['factory/factory.go','factory/factorys.go','factory/factoryi.go'],[('map under a read-write lock','factory/factorys.go')],None,['results'])
p('C24','Small reflection and comparison helpers are exact',
 "For every non-nil sample value, the reflective constructor returns a pointer to a new value of exactly the sample's type, the same-type test holds exactly when the dynamic types are identical, the kind is the dynamic type's kind, and the comparability test holds exactly for values whose dynamic type is one of the predeclared fixed set of integer, float and string types (not complex, bool or named types). Approximate float equality holds exactly when the absolute difference is a number below the stated tolerance 0.000001, and is symmetric.",
 ['inputs'],'every dynamic type and every pair of floats','the tests check a few types',['reflect/reflect.go','math/float.go'],[('type switch','reflect/reflect.go')],None,['results'])
p('C25','Package state is only written during initialisation or atomically',
 "No exported call of any buildable package writes package-level state outside initialisation unless the write is an atomic operation or happens with a lock held, so that unrelated goroutines may use the library concurrently. Shared default objects (comparators, hash tables, the prime table, reference addresses) therefore keep their initial value forever.",
 ['schedules','histories'],'every interleaving of calls into every package','a race needs a particular schedule; tests are single-threaded',['stl/','hash/','math/','factory/','unsafe/'],[('init-only globals','whole repository')],None,['package-level state'])
p('C26','Sorting a slice yields a sorted permutation',
 "For every content and length, sorting a sort slice (of integers, of tree nodes or of file-hash nodes), or the children of a tree node, leaves exactly the same elements in ascending order (nodes by their value, file hashes by size, then by hash), and heap-sorting a slice returns that slice with the same elements, ascending for a max heap and descending for a min heap. No sort panics, and none touches anything but the elements of the slice.",
 ['inputs'],'every content and length','no test sorts',[S+'sort_slice.gp_int.go',S+'sort_slice.gp_#inttreenodeb60b.go',S+'tree.gp_int.go','fs/sort_slice.gp_#filehashtreenodef199.go','fs/tree.gp_filehash38b3.go',S+'heap.gp_int.go'],[('sort through Len/Less/Swap',S+'sort_slice.gp_int.go'),('heap sort',S+'heap.gp_int.go')],None,['contents'])
p('C29','Random numbers are drawn one atomic step at a time and stay in range',
 "However many goroutines share a generator, each drawn number advances the seed in exactly one atomic step to an affine image of the seed it replaces, with an odd multiplier, so no step is lost or handed out twice and different seeds never lead to the same next seed; Rand returns the new seed. RandRange returns a number between the two bounds inclusive, in whichever order they are given and up to the full range of the type, can return every number of the range, and returns lower bound plus drawn number when that fits; RandMax returns a number below a positive maximum. None of them panics. Seed reads the seed and changes nothing, Srand replaces it and returns the previous one, a new generator starts from the seed it is given, the package-level functions do the same on the package's own generator, and a random string has exactly the requested number of capital letters.",
 ['inputs','schedules','histories'],'every seed, every pair of bounds and every interleaving of calls on one generator','a lost step needs a particular interleaving, and range errors need particular bounds (equal, swapped, full range)',['math/rand/rand.gp_32.go','math/rand/rand.gp_64.go','strings/rand.go'],[('compare-and-swap of the seed','math/rand/rand.gp_32.go'),('remainder by the width of the range','math/rand/rand.gp_64.go')],[('seed','the last number drawn','Rand32T, Rand64T')],['return values','Seed()'])
p('C30','Durations convert and print exactly, with days',
 "The duration constants have their standard values and a day is 24 hours, a week seven days. A duration below one day (and every negative one) prints as the standard library prints it, and a longer one as the whole number of days followed by d and the standard text of the rest, so nothing is lost. Std keeps the value, the float conversions give the duration in the named unit up to rounding, ParseDuration accepts exactly what the standard library accepts and gives the same value or the error, and Since measures from the given time to now.",
 ['inputs'],'every duration value, text and start time','the boundary cases (exactly one day, one nanosecond less, the largest and smallest values) are single points among 2^64',['time/duration.go'],[('splitting off days','time/duration.go')],None,['return values'])
p('C31','Triple DES encryption round-trips and rejects malformed data',
 "For every message and key, TripleDesEncrypt zero-pads the message to whole blocks (always at least one padding byte), and encrypts each block with encrypt, decrypt, encrypt under the three thirds of the key, which is cut or zero-filled to 24 bytes; it never fails. TripleDesDecrypt undoes it exactly for every message that does not end in a zero byte, removes only trailing zeros otherwise, and reports an error with nil for data that is empty or not whole blocks. Neither panics or changes the caller's buffers.",
 ['inputs'],'every message, key (of any length) and ciphertext','the interesting cases are particular lengths (block multiples, empty, short and long keys)',['crypto/ecb/ecb.go','crypto/'],[('block loop over a DES cipher','crypto/ecb/ecb.go'),('zero padding','crypto/')],None,['return values'])
p('C32','Keyed text codec and RSA wrappers do exactly the named operation',
 "Encode and EncodeString give the standard base64 text of the triple DES encryption of the data under the built-in key, Decode and DecodeString undo them (up to trailing zeros) and yield an empty result for malformed text without panicking; Hash and HashString are SHA-512 of five rounds of key, data, key, the latter in hexadecimal. A client or server holds exactly the key in the given PEM text; an unusable text or key of another kind is reported as an error with nil (a panic from the Must variants). Encrypt, Decrypt, Sign and Verify perform exactly one operation with that key on exactly the given data (for signatures its digest under the named hash, SHA-512 by default, and exactly the given signature) and return its outcome; encryption and key generation use the secure random source. GenRsaKeys returns the PEM texts of one fresh private key of the given size and of its public key, or an error and no keys.",
 ['inputs'],'every text, key, message, hash and every failure of a library step','wrong data, hash or a swallowed error shows only for particular inputs or library failures',['crypto/rsa/code.go','crypto/rsa/rsa.go'],[('base64 over triple DES','crypto/rsa/code.go'),('PKCS1 v1.5','crypto/rsa/rsa.go')],None,['return values'])
p('C33','File path objects do exactly the named operation on exactly their path',
 "A file path object holds the cleaned, slash-separated form of the text it is made from. Each file method performs exactly the one system operation it is named after, on exactly that path with exactly the given arguments, and returns its outcome (Open reads only, Create truncates with mode 0666). Link, Symlink, Rename and Move act from the path to the given name, taken as it is when absolute and from the directory of the path otherwise, and return that place with the outcome. The path functions (Split, SplitList, Ext, Base, Dir, Abs, EvalSymlinks, VolumeName, Match, HasPrefix, Join, Joins, Relate, RelatePath, RelateGoPath, FilePath, FormatPath, Set, TempDir, FileName) give what path/filepath defines and touch no file; a path that cannot be related gives \".\". Walk hands every visit on unchanged and returns what the visitor answers; Statistic counts each visited directory and file once and adds up the file sizes. Hash gives the hexadecimal digest under the named method of salt and content of a file, Fingerprint its fingerprint with the file's size, with path and size; FileHash values are ordered by size, then by hash. Hash, Fingerprint and CollectSubs report every failure to open, describe, list or read, and close every file they open. Chdir changes to the cleaned path and then WorkPath is the new working directory.",
 ['inputs'],'every path, name, argument, file content and every failure of the system','a wrong path, swapped argument or swallowed failure shows only for particular names, files or system errors',['fs/file_path.go','fs/file_line.go','fs/fs.go'],[('one system call per method','fs/file_path.go'),('relateThisPath','fs/file_path.go'),('error results','fs/fs.go')],None,['return values','the file system'])
p('C34','Registered errors keep their id and name',
 "Reg gives every name, in the order of registration, the next id after the last one given (ids run from 1001 to 9999, 1001 being ERRID_UNKNOWN \"unknown error\" and 1002 ERRID_STD \"standard error\"), never changes or drops a name registered before, and, when all ids are taken, reports an error and gives no id that belongs to another error. Get gives the registered name of an id, and an error with no name for every id that was not given out. The text of a registered id is \"error#ID (NAME)\". New makes an error with that id and text, Newf one whose text goes on with \": \" and the formatted parameters, StdErr one with ERRID_STD whose text goes on with \": \" and exactly the text of the given error, whatever characters it has. ShowAll gives \"[errors] Count:N\" and then every registered error, in order, one on each line.",
 ['inputs','histories'],'every sequence of registrations, every name, id, format and error text','the package has no test; the limits lie at the ends of the id range',['errors/errors.go','errors/with_id.go','errors/with_id_string.go'],[('registry','errors/errors.go'),('bounds of ids','errors/errors.go'),('Newf','errors/with_id_string.go')],None,['return values','error text'])
p('C35','Directory listings hold exactly the entries asked for',
 "CollectSubs lists, in the order in which the system lists the directory, exactly the entries that its options ask for: files with FsFile, directories with FsDir (hidden ones too), each once, by name, or by the directory joined with the name with FsFullPath. With FsDeep the entries of every directory below follow in its place, at every depth. With FsLeaf every directory below is searched as well and, of the directories, those and only those without a directory in them are listed (the given one too, when it has none), after their files. When any directory cannot be opened or listed, an error is returned; otherwise none. Every directory that is opened is closed. GetSubDirs, GetSubFiles and GetSubs list the directories, the files, and both, of the directory itself; GetDeepFiles lists the files at every depth, GetLeafDirs the paths of the directories without a directory in them.",
 ['inputs'],'every directory tree, set of options and every failure to open or list','an entry is lost or listed twice, or a failure swallowed, only for particular trees, options and failures',['fs/fs.go'],[('recursion and collection','fs/fs.go'),('options','fs/fs.go'),('leaf directories','fs/fs.go')],None,['return values'])
p('C36','The hash of a directory is determined by its files, not by the order of listing',
 "Fingerprint and Hash of a directory return a node for the directory (path, marked as a directory, its size the sum of the sizes of its entries) with exactly one child for every entry, hidden ones too, made in the same way with the same method and salt from the path of the directory joined with the name of the entry; the children are in ascending order of size, then hash. The hash of the directory is the hash under the method, after the salt, of the hashes of its children one after another in that order (for Fingerprint the fingerprint of these, with the total size), so that it depends neither on the order in which the system lists the entries nor on names. An empty directory has size 0 and the hash of the salt alone. When any entry, at any depth, cannot be opened, described, listed or read, an error is returned; otherwise none; every file that is opened is closed.",
 ['inputs'],'every directory tree, every content, method, salt, order of listing and failure','a lost or doubled entry, a wrong order or a swallowed failure shows only for particular trees, sizes, listing orders and failures',['fs/file_path.go'],[('Fingerprint of a directory','fs/file_path.go'),('Hash of a directory','fs/file_path.go')],None,['return values'])
p('C37','File sizes are shown in the unit that fits',
 "The text of a FileSize is the size divided by its unit, with three decimals, followed by the name of the unit, which is the largest of B, KB, MB, GB, TB, PB and EB (each 1024 times the one before) that is not larger than the size (B for 0): from 1 up to below 1024 units, for every size up to 2^64-1. N gives and Set takes the number of bytes unchanged.",
 ['inputs'],'every size up to 2^64-1','a wrong unit or number shows only at the ends of a range or for huge sizes',['fs/file_size.go'],[('choice of the unit','fs/file_size.go'),('division','fs/file_size.go')],None,['return values'])
p('C27','A waiting lock call eventually succeeds',
 "A goroutine that waits for a spin lock which is released again and again eventually acquires it, and gives up by panicking only when the lock really was held for a very long time.",
 ['schedules'],'every fair schedule','a liveness property over schedules',['sync/spinlock.go','sync/spinrwlock.go'],[('spin limit','sync/spinlock.go')],None,['progress'])
p('C28','Sorting a linked list is stable and loses nothing',
 "Sorting a doubly or singly linked list leaves exactly the same nodes in the list, in ascending order of the default comparator, keeps equal elements in their original order, and keeps the list well-formed.",
 ['inputs'],'every content and length','no test sorts a list',[S+'list.gp_int.go',S+'slist.gp_int.go'],[('merge sort with bins',S+'list.gp_int.go')],None,['contents'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
