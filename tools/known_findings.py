import json,subprocess
M={ # subject prefix -> (property, what failed)
"hold the chunk's read lock":("C04","a query ran while a write was half done: series without their sample"),
"a series without samples in range":("C01","a series with no sample in range emptied the whole chunk query"),
"report a failed write to an existing":("C17","a failed write to an existing series was reported as success"),
"a chunk accepts samples at both ends":("C18","a sample at an end of the window was refused"),
"compute a chunk's default end time":("C18","a chunk with start and end at the end of time could not be made (overflow)"),
"a query sees a chunk swap either":("C05","a query during a swap missed or repeated a chunk"),
"a query fails when a chunk":("C17","a query that could not read a chunk returned an incomplete result as success"),
"keep the samples of a reopened chunk":("C06","samples later than the reopening were not found in a reopened chunk; chunks of a reopened database were out of order"),
"find the chunks of a database whose path":("C06","a database in a non-ASCII directory did not open again"),
"open a database that has a directory entry named":("C06","a directory entry named like a chunk, without options, kept the database from opening"),
"write the metadata files":("C07","a crash within the writing of a metadata file left a database that did not open"),
"a label no series has":("C02","a matcher that no series has was ignored or failed the query"),
"a selection fails when TiKV":("C17","a selection during a TiKV failure returned an incomplete result as success"),
"creating an index reports":("C17","a failed index creation was reported as success, and left an index that a retry did not complete"),
"report a failed append":("C01","a failed append in sled was reported as success"),
"label values may contain commas":("C03","label values with commas or backslashes came back changed, or merged series"),
"keep the index entries of label names":("C02","label names that start with R collided with index keys of label sets"),
"trimming a series":("C01","a range read could lose or add samples at the ends of the range"),
"read a series from sled in time order":("C01","samples that came out of order were returned out of order, and range reads lost some"),
"keep the identifiers of both components":("C06","a chunk with both components in TiKV lost one of its identifiers"),
"label sets of different lengths":("C19","a label set was equal to a longer one"),
"time points with different values":("C19","time points with different values were equal"),
"a request whose body cannot be read":("C10","a body that cannot be read or decompressed panicked the worker, and the server"),
"refuse a write request that cannot":("C10","a write request that cannot be decoded was stored in part and answered with success"),
"answer a read request with an error":("C17","a read request whose query failed was answered with success and an empty result"),
"a query may start before 1970":("C09","a read request with a negative start returned nothing"),
"serve requests on all workers":("C11","one slow client stopped all others"),
"compact values whose xor":("C12","values whose xor has many leading zeros or 64 significant bits came back changed"),
"compact timestamps at the ends":("C12","timestamps at the ends of the delta ranges, or decreasing ones, came back changed or panicked"),
"the compaction without compaction":("C12","the compaction type None lost the time points"),
"refuse compacted data with an impossible":("C13","an impossible number of remaining bits panicked"),
"the write ahead log writes whole":("C14","entries were written in part with short writes, and write errors were ignored"),
"the write ahead log's caches":("C14","cached entries were lost"),
"refuse entries that are too long":("C14","entries of more than 65535 bytes were written with a wrong length"),
"a label name with a separator":("C10","a hostile label name made reads of other series fail"),
"the README names the actual port":("C21","the documented port and configuration keys were not the ones the server has"),
"metadata that cannot be read":("C08","a metadata file that is not UTF-8 was replaced, and the database opened with any backends"),
"a message that is cut off":("C10","a write request cut off between two fields was stored in part and answered with success"),
"the README names the short":("C21","the documented short option -dir is refused"),
"nothing follows a failed write":("C14","after a failed write, entries followed a damaged one, and a close succeeded though entries reported as logged were lost"),
"a panic of a backend does not end":("C23","a panic of sled (full disk) in a rotation ended rotation for ever: all later samples were dropped, though answered with success"),
"give a new chunk a directory":("C22","after the clock was set back to the start of a chunk, the new chunk took its directory: rotation stopped or the database did not open (sled), or the old samples were lost (TiKV)"),
"refuse a chunk size that leaves":("C21","--chunk_size 0, and sizes whose milliseconds do not fit into 64 bits, made a server that takes no samples (or has another window)"),
"a chunk's default size is":("C18","a chunk made without an end lasted 12 s instead of the default of 12000 s"),
"the index's builder writes":("C27","at the opening the storage's builder was told twice to write its configuration to the database's directory, the index's never"),
"a builder that cannot prepare":("C27","a builder that failed to prepare the first chunk was ignored: the database opened on it, though a rotation would have refused the same"),
"two databases opened on one":("C26","two databases opened on one directory within the same millisecond (or while a rotation of the other took place) could take the same chunk directory: the samples of one of them were lost (TiKV)"),
"--tikv_config takes a file":("C21","--tikv_config could not be given a file: no TiKV cluster could be configured"),
}
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[]
known=[json.loads(l) for l in open('/verif/known-findings.jsonl')] if __import__('os').path.exists('/verif/known-findings.jsonl') else []
known=[k for k in known if k['status']=='known']
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    k=[m for m in M if s[5:].startswith(m)]
    assert len(k)==1,(s,k)
    p,w=M[k[0]]
    out.append({"status":"fixed","property":p,"line":"fixed: property=%s %s %s"%(p,h,w)})
with open('/verif/known-findings.jsonl','w') as f:
    for k in known+out: f.write(json.dumps(k,ensure_ascii=False)+"\n")
print(len(out))
