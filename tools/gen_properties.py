#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit them)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=hook)))

p('C01','Board record: exact on-disk layout and lossless round trip',
 'Decoding any 256-byte board record yields, for every field, the value the original C structure has at that field\'s offset; re-encoding the decoded value reproduces every bit of every defined field (text up to its terminator). Encoding any board value writes each field at its C offset only: text which is too long for its field never changes another field, and a time which was never set is stored as zero.',
 'inputs','all 256-byte records and all board values (every field at boundary and random values, any Big5 text)',
 'The tests decode the ten records of one committed sample file; they cannot show that every byte of the record is mapped to the right field in both directions for all values.',
 'pttbbs/board.go pttbbs/encoding.go',[('UnmarshalBoardHeader / MarshalBinary with PosOf* offsets','pttbbs/board.go'),('time4','pttbbs/encoding.go')],observe=['pttbbs.UnmarshalBoardHeader','(*BoardHeader).MarshalBinary'])
p('C02','Article index record: exact layout and lossless round trip',
 'Decoding any 128-byte article index record yields each field at its C offset, with the 4-byte union read according to the file mode (vote limits, anonymous uid, or signed money). Re-encoding reproduces every defined bit, including file mode and union, so reading a record, changing one attribute (for example the recommend score) and writing it back changes nothing else.',
 'inputs histories','all 128-byte records, all setter sequences on them',
 'Tests use a handful of records from one sample .DIR file, none with votes, anonymous posts, negative money or unusual modes.',
 'pttbbs/file.go pttbbs/encoding.go',[('NewFileHeaderWithByte / MarshalToByte','pttbbs/file.go')],observe=['pttbbs.NewFileHeaderWithByte','(*FileHeader).MarshalToByte'])
p('C03','User account record: exact layout and lossless round trip',
 'Decoding any 512-byte account record yields each field at its C offset (identity, profile, counters, times, game scores, flags), and re-encoding reproduces every bit of every defined field. Text that is too long for its field never changes another field.',
 'inputs','all 512-byte records and account values',
 'Tests check the records of one sample .PASSWDS; fields which are zero there (role, angel times, scores) can be mapped wrongly or dropped unnoticed.',
 'pttbbs/passwd.go pttbbs/encoding.go',[('UnmarshalUserec / MarshalBinary','pttbbs/passwd.go')],observe=['pttbbs.UnmarshalUserec','(*Userec).MarshalBinary'])
p('C04','Online-user record: exact layout and lossless round trip',
 'Decoding any online-user record of the shared memory yields each field at its C offset, and re-encoding the decoded value reproduces every bit of every defined field, including messages, friend and reject lists and all game counters. The decoded value is a copy: later changes of the shared memory do not change it.',
 'inputs histories','all 3484-byte records; mutation of the source buffer after decoding',
 'Tests compare a few hand-made records; overlapping or shifted offsets only show on values the tests never use.',
 'pttbbs/userinfo.go',[('UnmarshalUserInfo / MarshalBinary','pttbbs/userinfo.go')],observe=['pttbbs.UnmarshalUserInfo','pttbbs.OpenUserInfoCache'])
p('C05','Favorites: the whole tree is read, resolved and written back',
 'Reading a favorites file returns every item in stored order with its type, title, attributes and nested folder contents at any depth, and resolves each board entry to the id of the board in that position of the board list (empty when there is no such board). Writing a tree and reading it again yields the same tree, with lines and folders numbered in sequence within their folder; a tree with an item that cannot be written is refused, not written without it.',
 'inputs','all favorites trees (depth, counts of boards/lines/folders up to the format limits), all board lists',
 'Tests decode one committed .fav; deep nesting, empty folders, mixed order, removed boards and big counts are not sampled.',
 'pttbbs/fav.go pttbbs/pttbbs.go',[('UnmarshalFavFile and recursive helpers','pttbbs/fav.go'),('appendBoardID','pttbbs/pttbbs.go')],observe=['pttbbs.UnmarshalFavFile','(*FavFile).MarshalBinary','DB.ReadUserFavoriteRecords'])
p('C06','FormosaBBS index records are read at their layout',
 'Reading a FormosaBBS article index returns exactly the complete 248-byte records of the file in order, each with file name, owner, title, time and post number taken from that layout, text ending at the first NUL and decoded from Big5.',
 'inputs','all index files',
 'One committed sample with a few records; nothing covers arbitrary field bytes, long text or truncated files.',
 'formosabbs/file.go',[('OpenFormosaBBSFileHeaderFile / NewFomosaBBSFileHeaderWithByte','formosabbs/file.go')],observe=['formosabbs.OpenFormosaBBSFileHeaderFile'])
p('C07','Record files: all complete records, in order, and nothing else',
 'Reading any record file (boards, accounts, article index, online users, FormosaBBS index) returns exactly floor(size/record size) records in file order, each equal to decoding that slice on its own; an incomplete record at the end is ignored. A read error is reported as an error, never as a short list, and reading always terminates.',
 'inputs fault_sequences','all file sizes and contents; missing files, directories, unreadable files, pipes that deliver the file in small pieces',
 'Tests read whole, well formed sample files; short tails, short reads and read errors never happen there.',
 'pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go formosabbs/file.go',[('io.ReadFull loops of the Open*File readers','pttbbs/*.go, formosabbs/file.go')],observe=['Open*File functions','DB.Read* methods'])
p('C08','No stored data can crash or hang a reader',
 'Whatever bytes a file, log line, shared-memory segment, password hash or record buffer contains, reading it through any public entry point returns a value or an error: it never panics, exits the process, loops forever or uses memory out of proportion to the input.',
 'inputs','all byte contents of every input the library decodes',
 'Tests feed well formed data; the guarantee is about every malformed input.',
 'pttbbs formosabbs crypt cache bbs.go user_comment_record.go ansi.go big5.go',[('length and range checks of all decoders','pttbbs/*.go')],observe=['every exported decoder','DB.* read methods'])
p('C09','Text conversion loses nothing it can represent',
 'Converting text to Big5 and back returns the text for every character Big5-UAO has, character by character and regardless of the neighbours; a character it does not have is replaced by one substitute and never removes or alters other characters. Converting any bytes from Big5 yields valid UTF-8, ASCII bytes stay themselves, and both conversions always consume the whole input.',
 'inputs','all strings and all byte strings',
 'Tests convert a few phrases; the code space is 1.1 million characters and any mixture.',
 'big5.go pttbbs/encoding.go',[('Utf8ToBig5 / Big5ToUtf8','big5.go')],observe=['bbs.Utf8ToBig5','bbs.Big5ToUtf8'])
p('C10','Fixed-width text ends at the first NUL',
 'Every text field of a record is what stands before the first NUL in its field, whatever garbage follows, or the whole field when it has no NUL; it never contains bytes of the neighbouring field.',
 'inputs','all field contents, in every text field of every record type and in the exported C-string helpers',
 'Tests use zero padded fields only; fields which were overwritten with shorter text leave garbage after the NUL in real files.',
 'cstr.go pttbbs/encoding.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/userinfo.go formosabbs/file.go',[('CstrToBytes / CstrToString','cstr.go')],observe=['bbs.CstrToBytes','text accessors of all records'])
p('C11','Password hashing is the traditional DES crypt',
 'Hashing any password with any two-character salt of the crypt alphabet (./0-9A-Za-z) yields exactly the traditional Unix DES crypt result: 13 characters, the salt first, only the first eight characters of the password significant, with 7 significant bits per character. A salt shorter than two bytes or with a byte outside the 7-bit range is an error, never a crash or a hash.',
 'inputs','all passwords of any length and bytes, all salts',
 'Tests compare a few password/salt pairs; 4096 salts and the whole DES tables are beyond samples.',
 'crypt/crypt.go crypt/const.go crypt/bbscrypt.go crypt/utils.go',[('Fcrypt with table driven DES','crypt/crypt.go')],observe=['crypt.Fcrypt'])
p('C12','A password is accepted only when it matches the stored hash',
 'Verifying a password against an account succeeds if and only if the traditional crypt of that password with the salt of the stored hash equals the whole stored hash. Empty, short, malformed or truncated stored hashes never accept any password.',
 'inputs','all passwords and all stored hash contents',
 'Tests check one right and one wrong password.',
 'pttbbs/passwd.go crypt/bbscrypt.go',[('VerifyPassword','pttbbs/passwd.go')],observe=['(*Userec).VerifyPassword'])
p('C13','Comment lines are recognised and split correctly',
 'A line is a comment exactly when it has the form "name: text MM/DD hh:mm" with a real date and time; then its author is the name, its time is the last such time stamp, and its text is everything between the colon and that time stamp, without surrounding blanks, even if the text has colons, further time stamps or any other bytes. All other lines give an error.',
 'inputs','all lines',
 'Tests use a table of a few lines.',
 'user_comment_record.go',[('parseUserComment','user_comment_record.go')],observe=['bbs.NewUserCommentRecord'])
p('C14','Finding a user\'s articles is complete and exact',
 'Listing the articles of a user returns exactly the index entries whose owner is that user, over all boards except the aggregate board ALLPOST and unused slots, in board order and then index order, with the right board id, title, owner and file name. Boards without an index contribute nothing and do not hide other boards.',
 'inputs configurations','all board lists, indexes and user ids',
 'A sample home directory with a couple of articles cannot show completeness for every board and index.',
 'bbs.go user_article_record.go',[('GetUserArticleRecordFile','bbs.go')],observe=['DB.GetUserArticleRecordFile'])
p('C15','Finding comments is complete, ordered and numbered',
 'Listing the comments of an article returns one entry per comment line, numbered from 1 in file order, with colour codes ignored; lines which are not valid comments, or are very long, hide nothing. Listing a user\'s comments in a board or in all boards returns exactly that user\'s entries of those listings, in board, index and line order, skipping deleted articles.',
 'inputs configurations','all article contents, indexes and board lists',
 'Tests parse one article of a mock connector.',
 'bbs.go user_comment_record.go ansi.go',[('GetBoardArticleCommentRecords, GetBoardUserCommentRecord, GetUserCommentRecordFile','bbs.go')],observe=['DB.GetBoardArticleCommentRecords','DB.GetBoardUserCommentRecord','DB.GetUserCommentRecordFile'])
p('C16','Colour codes are removed and text is kept',
 'Removing terminal codes from text made of plain text and well formed colour and cursor control sequences (ESC [, numeric parameters, a final letter) leaves exactly the plain text in order. Text without control characters is unchanged, and removing them a second time changes nothing.',
 'inputs','all interleavings of plain text with supported control sequences',
 'Tests strip a few fixed strings.',
 'ansi.go',[('FilterStringANSI','ansi.go')],observe=['bbs.FilterStringANSI'])
p('C17','Login logs are read line by line without loss',
 'Reading a login attempt log or a recent login log yields one entry per line in order with result, user id, time and host as written; an entry that is formatted and parsed again is the same entry. A malformed line or a read failure gives an error, not a shorter list or a terminated process.',
 'inputs fault_sequences','all entries and files',
 'Tests use a few lines per log.',
 'pttbbs/bad_logins.go pttbbs/login_recent.go',[('LoginAttempt UnmarshalText/MarshalText, OpenBadLoginFile','pttbbs/bad_logins.go'),('OpenLoginRecentFile','pttbbs/login_recent.go')],observe=['pttbbs.OpenBadLoginFile','pttbbs.OpenLoginRecentFile'])
p('C18','Every object has one path, and no two objects share one',
 'For any home, user, board, treasure path and file name, the path of each kind of file follows the documented layout under that home, depends only on its arguments and does not change them. Different objects get different paths, and an empty user or board id is an error instead of a path.',
 'inputs','all ids, treasure paths and names without a slash',
 'Tests check one example per function.',
 'pttbbs/path.go pttbbs/pttbbs.go',[('Get*Path','pttbbs/path.go')],observe=['pttbbs.Get*Path','Connector.Get*Path'])
p('C19','Article files hold what was written',
 'After any sequence of write, append and read operations on article files, reading a file returns exactly the content of its last write followed by the contents appended since, byte for byte. Writing replaces the whole file even when the new content is shorter, appending to a file that does not exist is an error and creates nothing, and no other file changes.',
 'histories inputs','all operation sequences and contents',
 'Tests do one write or append on a fresh file.',
 'pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go pttbbs/pttbbs.go bbs.go',[('WriteBoardArticleFile, AppendBoardArticleFile, ReadBoardArticleFile','pttbbs')],observe=['DB.WriteBoardArticleFile','DB.AppendBoardArticleFile','DB.ReadBoardArticleFile'])
p('C20','Concurrent article file operations are atomic',
 'When several goroutines or processes write, append to and read the same article file, the observed results are those of some sequential order that respects real time: every acknowledged append appears exactly once and unbroken, reads never see a partly written content, and a write never mixes with another.',
 'schedules histories','all interleavings of write, append and read by threads and processes',
 'Tests are sequential.',
 'pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go pttbbs/pttbbs.go filelock',[('filelock.Lock/RLock around file access','filelock, pttbbs')],observe=['DB.WriteBoardArticleFile','DB.AppendBoardArticleFile','DB.ReadBoardArticleFile'])
p('C21','The article index reflects every append and update',
 'After any sequence of appends and in-place updates of an article index, reading it returns one record per append in append order, each with the value of its last update and otherwise unchanged. An update of a position that does not exist is an error and leaves the file byte for byte as it was.',
 'histories inputs','all operation sequences, indexes and record values',
 'Tests append or update once.',
 'pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go',[('AppendFileHeaderFileRecord, UpdateFileHeaderFileRecord','pttbbs/file.go')],observe=['DB.AddArticleRecordFileRecord','Connector.UpdateArticleRecordFileRecord','DB.ReadBoardArticleRecordsFile'])
p('C22','Concurrent posts each appear in the index exactly once',
 'When several goroutines or processes append to, update and list the same article index, the observed results are those of some sequential order that respects real time: every acknowledged append is present exactly once and unbroken, appends of one writer keep their order, updates lose no other record, and every reader sees the index as it was at one moment, made of complete records only.',
 'schedules histories','all interleavings by threads and processes',
 'Tests are sequential.',
 'pttbbs/file.go filelock',[('filelock.Lock in AppendFileHeaderFileRecord/UpdateFileHeaderFileRecord, RLock in OpenFileHeaderFile','pttbbs/file.go')],observe=['DB.AddArticleRecordFileRecord','DB.ReadBoardArticleRecordsFile'])
p('C23','The board list reflects every add and remove',
 'After any sequence of board additions and removals the board list is exactly the added boards minus the removed ones in order, each unchanged; removing a position that does not exist is an error and changes nothing. Under concurrent use by goroutines or processes every acknowledged addition is present exactly once, each removal removes exactly one record, and readers never see a partly shifted list.',
 'histories schedules','all operation sequences and interleavings',
 'Tests remove one record of one sample file, sequentially.',
 'pttbbs/board.go pttbbs/pttbbs_write_board_connector.go filelock',[('AppendBoardHeaderFileRecord, RemoveBoardHeaderFileRecord','pttbbs/board.go')],observe=['DB.AddBoardRecord','pttbbs.RemoveBoardHeaderFileRecord','DB.ReadBoardRecords'])
p('C24','New article names are unique and reserved',
 'Every successful request for a new article gets a file name of the form M.<unix time>.A.<three hex digits> in that board which no other request, in any goroutine or process, gets, and which exists as an empty file afterwards; existing articles are never touched. When the name cannot be reserved the request ends with an error.',
 'schedules histories fault_sequences','all interleavings of requests; full name space for the current second; missing or unwritable board directories',
 'Tests request one name.',
 'pttbbs/pttbbs_write_article_connector.go bbs.go',[('O_CREATE|O_EXCL reservation loop','pttbbs/pttbbs_write_article_connector.go')],observe=['DB.CreateArticleRecord','Connector.CreateBoardArticleFilename'])
p('C25','Drafts are replaced and removed atomically',
 'Reading a draft returns exactly the bytes of its last write, or nothing after removal or before any write; drafts of different users or numbers never affect each other. A reader concurrent with writers always sees one complete version, and a failed or interrupted write leaves the previous version.',
 'histories schedules crash_points','all operation sequences, contents, interleavings and interruption points',
 'Tests write one draft and read it back.',
 'pttbbs/draft.go bbs.go user_draft.go',[('temporary file and rename in WriteUserDraft','pttbbs/draft.go')],observe=['DB.WriteUserDraft','DB.GetUserDrafts','DB.DeleteUserDraft'])
p('C26','Databases opened side by side stay separate',
 'Any number of databases opened with one driver, also concurrently and with every accepted form of home location, each read and write only their own home. Registering and opening drivers is safe from any number of goroutines, and an unknown driver or failing open gives an error and no database.',
 'schedules configurations histories','all sets of homes, orders of opening and interleaving use',
 'Tests open at most one database at a time.',
 'bbs.go pttbbs/pttbbs.go',[('Register/Open, ConnectorFactory','bbs.go'),('Connector.Open','pttbbs/pttbbs.go')],observe=['bbs.Open','bbs.Register'])
p('C27','Shared segments have the right size, content and lifetime',
 'A shared-memory or memory-mapped segment opened by key or path gives access to exactly the bytes of that segment: writes through one attachment are seen by all others and by the file, the length is the segment\'s, and calls touch no memory outside it. Closing detaches exactly that attachment, closing again or failing to open is an error without side effects, and removal removes only that segment.',
 'inputs histories configurations','all sizes, keys, paths and connection strings; all sequences of create, open, write, close, remove',
 'Tests create one tiny segment and set one byte.',
 'cache/cache.go cache/mmap.go cache/mmap_unix.go cache/systemvshm.go cache/systemvshm_linux.go cache/systemvshm_unix.go',[('CreateKey/OpenKey/Close, CreateMmap/OpenMmap/Close, NewCache','cache')],observe=['cache.*'])
p('C28','Shared-memory accessors read the C structure for every setting',
 'For every combination of maximum users, id length, alignment, hash size and cool-down setting, reading the version, a user\'s id or money returns what the C structure compiled with that setting has there, and with the default structure of an online record reading one returns every field of it. A user number outside the range or a segment too small for the setting gives an empty value or an error, never neighbouring data or a crash.',
 'configurations inputs','all settings, user numbers and segment contents',
 'Tests read one dump with one setting.',
 'pttbbs/cache.go pttbbs/userinfo.go',[('caculatePos','pttbbs/cache.go')],observe=['pttbbs.NewCache','Cache.Version/UserID/Money/UserInfo'])
p('C29','The web API gives user data only to that user',
 'A token is issued only for a right user id and password, names that user, and expires 30 minutes after it is issued. User information is returned only for a request with a token that this server signed, that has not expired and that names the requested user; any other token, header or forged, altered or unsigned token gets "unauthorized" and no user data.',
 'inputs histories','all user ids, passwords, tokens and headers',
 'The existing test checks that a valid token is accepted; rejection of everything else is not sampled.',
 'serverlet/route_token.go serverlet/permissions.go serverlet/route_users.go',[('postToken, newAccessTokenWithUsername','serverlet/route_token.go'),('checkTokenPermission','serverlet/permissions.go')],observe=['HTTP /v1/token','HTTP /v1/users/{id}/information'])
p('C30','The web API serves the stored data and survives any request',
 'User information responses carry exactly the stored account values of the requested user, and the board list carries every board of the board file in order. Any request, concurrent or malformed, gets an HTTP response and never terminates the server or changes later answers or stored files.',
 'inputs schedules','all stored accounts and boards, all requests',
 'One mock user record in a unit test.',
 'serverlet/main.go serverlet/route_users.go serverlet/route_boards.go serverlet/route_classes.go',[('route handlers','serverlet')],observe=['HTTP /v1/*'])
p('C31','Driver failures and missing features surface as errors',
 'When a driver lacks an optional capability or any of its operations fails, the corresponding database operation returns an error (or the documented fallback) and never panics, reports success or performs a later step; values returned by the driver are passed on unchanged, for every operation, and where a driver keeps lists of its own of the articles or comments of a user, these are the result unless they are empty.',
 'fault_sequences configurations','all subsets of optional capabilities and all single and repeated faults of driver operations',
 'Tests use a driver which supports everything and never fails.',
 'bbs.go',[('capability checks and error returns of DB methods','bbs.go')],observe=['bbs.DB methods over a recording driver'])
p('C32','The command line tool reports and stores what it is given',
 'For any home directory and arguments, listing commands print every stored board, user, article or comment once in order, an added board or article is found by the listing commands and the C layout with the given values, and a shown article is the decoded stored text. Missing or wrong arguments give a message and neither crash the tool nor change any file; a command that fails says so.',
 'inputs histories configurations','all homes, argument lists and sequences of commands',
 'The tool has no end-to-end tests.',
 'cmd/bbstool/main.go cmd/bbstool/articles.go',[('subcommands','cmd/bbstool')],observe=['bbstool process: output, exit, files'])
p('C33','An interrupted change never damages other records',
 'If the process or disk fails at any point of adding an article or board, updating an article entry or removing a board, all records other than the one concerned are still read, complete and in order, and the next successful addition is read back correctly. An article that is rewritten meanwhile holds its old text or a beginning of the new one, one that is appended to keeps its text. An operation that could not be completed reports an error.',
 'crash_points fault_sequences histories','every system call of the operation as interruption point, every partial write length, disk full and file size limits',
 'Tests never interrupt or fail a write.',
 'pttbbs/board.go pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go',[('dropIncompleteRecord, record-wise copying in RemoveBoardHeaderFileRecord','pttbbs')],observe=['files after kill or fault'])
p('C34','Repeated use leaks no resources',
 'Any number of operations, successful or failing, leaves the number of open files, memory mappings, shared-memory attachments, goroutines and temporary files as it was before, without waiting for garbage collection.',
 'histories fault_sequences','all operations including their failure paths, repeated',
 'Tests run each operation once in a short process.',
 'pttbbs formosabbs cache bbs.go filelock',[('file.Close / Unlock / Shmdt / Munmap on all paths','pttbbs, cache')],observe=['/proc/self/fd','/proc/self/maps','directory listings'])
p('C35','Board attributes mean what the C flags mean',
 'Each board attribute query is true exactly when its own flag bit of the C definition is set, independently of all other bits, the class id is the parent group number, post limits are the stored limits, and the moderator list is the non-empty names separated by "/" in stored order.',
 'inputs','all 2^32 attribute words and moderator texts',
 'Tests look at the flags of the sample boards only.',
 'pttbbs/board.go',[('Is* methods, BM, ClassID','pttbbs/board.go')],observe=['BoardHeader attribute methods'])
p('C36','Concurrent use of one database is free of data races',
 'Any mixture of operations on one or more databases, caches and conversion functions from any number of goroutines executes without data races, deadlocks or internal corruption, and results are the same as when run alone.',
 'schedules','all schedules of concurrent calls',
 'Tests are sequential and run without the race detector.',
 'bbs.go pttbbs cache crypt big5.go ansi.go',[('no shared mutable state except guarded registry; DES tables read-only','bbs.go, crypt')],observe=['Go race detector reports','result comparison with sequential run'])
p('C37','Reading changes nothing that is stored',
 'Any sequence of reading operations (lists, articles, favorites, drafts, searches, logs, shared memory) leaves every file of the home byte for byte, name for name, with unchanged modes and modification times, and leaves shared memory unchanged. The same read repeated on unchanged data gives the same result.',
 'histories inputs','all reading operations on all homes',
 'Tests look at results only, never at the files afterwards.',
 'bbs.go pttbbs formosabbs',[('read paths open files read-only','pttbbs')],observe=['snapshot of the home directory before and after'])
p('C38','Secrets are never logged or shown',
 'No log line, HTTP response or tool output ever contains a password that was entered or the stored password hash of any account, whichever operation succeeds or fails.',
 'inputs histories','all operations on all accounts, with successful and failing logins',
 'Tests do not look at the log.',
 'bbs.go pttbbs serverlet cmd/bbstool',[('log calls','serverlet/route_token.go, serverlet/main.go, bbs.go')],observe=['log output, HTTP responses, tool output'])
p('C39','Arguments are not modified and results are independent',
 'No operation modifies the slices, maps or records it is given, and changing a returned value or an input after the call changes neither stored data nor any other returned value (CstrToBytes and NewUserDraft give a view of the bytes they are given).',
 'inputs histories','all operations with mutation of arguments and results after the call',
 'Tests never look at their inputs after a call or modify results.',
 'pttbbs crypt cstr.go big5.go bbs.go',[('copies in decoders and path functions','pttbbs')],observe=['arguments after each call, results after mutation'])
p('C40','File locks exclude each other',
 'At any time a file is locked either by one exclusive holder or by any number of shared holders, across goroutines with separate open files and across processes. A waiting request gets the lock after it is released, by unlocking, closing or the death of the holder.',
 'schedules crash_points','all interleavings of lock, shared lock, unlock, close and holder death',
 'There is no test of the lock.',
 'filelock/filelock.go filelock/filelock_unix.go',[('flock in lock/rlock/unlock','filelock')],observe=['filelock.Lock/RLock/Unlock'])
p('C41','A read that fails in the system is reported, never shortened',
 'When the operating system refuses or fails any call that a reading operation makes (opening, locking, seeking, asking for the size, reading, at any point of the file), the operation returns an error or the complete result it returns without the failure: never part of the data, an empty list, a default or another user\'s data as a success. Later reads are not affected, and the operation leaves nothing open.',
 'inputs fault_sequences','all reading operations of a database, a home, a shared-memory file and the log files; every error at every system call they make, once or repeatedly',
 'Tests read healthy local files, where no call fails; which errors are swallowed only shows when a call in the middle of a composed operation fails.',
 'bbs.go pttbbs/pttbbs.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/fav.go pttbbs/userinfo.go pttbbs/login_attempt.go formosabbs/file.go cache/mmap.go filelock/filelock.go',[('error returns of the Open*File loops','pttbbs'),('searches over all boards return the first error','bbs.go'),('openFile closes the file when it fails','cache/mmap.go')],observe=['DB read methods','pttbbs.Open*File','cache.OpenMmap','pttbbs.NewCache'])
p('C42','Account settings come from the right user and the right flag bits',
 'Each of the fifteen personal settings (banner, outside mail, backup, secure login, favorites, modification marks, double-byte handling, cursor, menu, angel pager) of a user is on exactly when its own bit of uflags.h is set in the flags of the first account whose id is exactly that user, whatever the other bits are; asking for an id which no account has is an error.',
 'inputs','all 2^32 flag words, all account lists including similar and repeated ids',
 'The test table of this function is empty; each setting is one line that can name a wrong bit or be stored in the wrong place.',
 'pttbbs/usersettings.go pttbbs/const.go pttbbs/passwd.go',[('getUserFlagAllByID and its getters','pttbbs/usersettings.go'),('Uf* bits','pttbbs/const.go')],observe=['getUserFlagAllByID and the getters, by a test file laid over the package'])
p('C43','The name hash is FNV-1a from any start value',
 'The hash with a given start value equals 32-bit FNV-1a started there, for every start value and every text, no matter in how many pieces the text is written and how many other hashes are computed at the same time; its bytes are the big-endian sum, and the start value of PTT is 33554467.',
 'inputs histories','all start values, all texts in all divisions',
 'The tests hash six short texts, each in one piece.',
 'pttbbs/internal/fnv/fnv.go',[('New32aWith sets the state of hash/fnv','pttbbs/internal/fnv/fnv.go')],observe=['fnv.New32aWith, by a test file laid over the package'])
p('C44','Reads show what is stored at that moment',
 'Every reading operation of a database returns what the files of its home hold when it is called, whoever wrote them: other programs may change, replace, shorten, extend or remove files in place or by renaming, within one tick of the clock and without changing the size. Nothing is remembered from an earlier read, another user, another database or another home in which the names are the same.',
 'histories','all histories of changes to the files of a home and reads in between',
 'Tests read each fixture once in a fresh state; a result that is kept from an earlier read only differs after the file has changed.',
 'bbs.go pttbbs/pttbbs.go pttbbs/board.go pttbbs/file.go pttbbs/passwd.go pttbbs/fav.go pttbbs/login_attempt.go pttbbs/login_recent.go pttbbs/pttbbs_user_draft_connector.go pttbbs/pttbbs_read_board_article_file.go',[('Connector methods open the files at each call','pttbbs/pttbbs.go'),('DB methods pass on to the connector','bbs.go')],observe=['DB read methods between changes of the files','the same reads in a new process'])
p('C45','Access rights are kept and respected',
 'A change leaves the permissions of every existing file as they were and works through symbolic links, which remain; a file which is created for an article, an index, the board list or a draft may be read and written by its owner and read by others, less the umask of the process, and executed by nobody; while a draft is written its text is never in a file more users can read. A new shared-memory segment is for its owner only, and a new memory file obeys the umask. Reading stored files (memory files apart) needs no right to change anything. When the rights of files or directories deny an operation, a read gives an error and never a shorter or empty result, and a change gives an error and changes nothing.',
 'inputs fault_sequences','all operations, umasks, file modes, links and rights of the user',
 'Tests run with one umask on files of one mode as one privileged user.',
 'pttbbs/draft.go pttbbs/board.go pttbbs/file.go pttbbs/pttbbs_write_article_connector.go pttbbs/pttbss_append_new_line.go cache/mmap.go cache/systemvshm.go',[('OpenFile modes','pttbbs'),('WriteUserDraft','pttbbs/draft.go'),('CreateKey flags','cache/systemvshm.go')],observe=['file modes and links, system call traces, results as another user'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
