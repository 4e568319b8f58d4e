#!/usr/bin/env python3
"""Writes known-findings.json: every genuine defect found on the original tree, all repaired. 'fixed' entries suppress nothing."""
import json,os,subprocess
P={ # commit: (property, the failing input, schedule or history on the tree before the repair)
'eb8ba07':('C17','two connections; one SELECTs database 1; the other one\'s next SET/GET also goes to database 1'),
'7dde247':('C17','SELECT 16 (with 16 databases) or SELECT -1: index out of range, the server dies'),
'ae16646':('C16','request *0 CRLF or *-1 CRLF: index out of range in ExecCommand, the server dies'),
'223df51':('C16','request line LF alone, or a line starting with an unknown byte inside an array: index out of range / nil element, the server dies'),
'e34da02':('C18','any read error or protocol error: the parser goroutine of the connection loops or blocks for ever'),
'2c6d62f':('C16','$9223372036854775000 CRLF: makeslice panics; $2000000000 CRLF reserves 2 GB before a byte arrives'),
'e7d27ec':('C15','unknown command whose name holds CR LF: the error reply is split into two replies'),
'8d8de9a':('C22','a bad header: its CR LF is written into the log line, one message becomes two lines'),
'b030c7c':('C20','configuration file that ends in an empty line: ParseConfFile never returns'),
'13b8c28':('C20','-config naming a directory: the read error is dropped and loading loops or answers nil'),
'74554b8':('C20','configuration line "port" without a value: index out of range'),
'1b19a69':('C20','dbnum 0, segnum 0 or port 70000: accepted, then the server crashes or cannot listen'),
'2d1fd91':('C22','a restart in the same log directory writes over the beginning of redis.log'),
'5bbe909':('C06','KEYS a*bc over key abbc; KEYS h[a-b]*; KEYS [^a]: wrong matches or index out of range'),
'18cd317':('C13','KEYS * while another client adds a key: index out of range; and count updated without a lock (C11)'),
'a75010b':('C12','GET a (deadline past) || SET a v: the expiry check done before the lock deletes the new value'),
'ee865c4':('C09','SETNX a 1 || SETNX a 2: both answer 1'),
'54d4377':('C12','TTL k while the deadline passes between check and read: answers -1'),
'9634d8f':('C09','DEL a b || MSET a 7 b 8: one key survives'),
'dfd5267':('C09','EXISTS a b || RENAME a b: answers 2 or 0'),
'61d5803':('C09','MGET a b || MSET a 7 b 8: a mix of old and new; missing or non-string keys are left out of the reply (C01)'),
'6afbf70':('C07','SET k v; PERSIST k: answers 1'),
'ec2c685':('C07','SET k v; EXPIRE k 10 LT: answers 0'),
'ddd0b28':('C07','EXPIRE k 9223372036854775807: the deadline wraps around and the key vanishes'),
'eec544e':('C16','SET k v EX: index out of range, the server dies'),
'eb1603b':('C07','SET k v EXAT 1: reads the word EXAT as the number'),
'60a847f':('C07','SET k v EX 0 and SET k v EX -1: accepted'),
'1e6d158':('C01','SADD k a; SET k v: refused'),
'fd6566c':('C08','SETEX k 100 v; SET k w NX: not set, but the deadline is gone'),
'aa27de6':('C07','SETEX k -1 v: accepted'),
'5714ce1':('C01','GETRANGE k 0 9223372036854775807: slice bounds out of range'),
'ea61030':('C01','SET k abcdef; SETRANGE k 1 X: cuts the tail off; SETRANGE k 9223372036854775807 x: crash'),
'7c85666':('C01','INCR missing: answers an error or stores nothing'),
'9f2ce00':('C01','SET k 9223372036854775807; INCR k: wraps around'),
'929c3ac':('C01','INCRBYFLOAT k nan / inf: stored'),
'7bbdfea':('C02','HSET h f 1; HSETNX h g 2: answers 0'),
'fc18f1e':('C08','HINCRBY missing f abc: refused, but leaves an empty hash'),
'b425d86':('C02','HSET h f 9223372036854775807; HINCRBY h f 1: wraps around'),
'960f8dd':('C02','HINCRBYFLOAT h f nan: stored'),
'd6e793a':('C02','HRANDFIELD h 1: a bulk string where an array is promised'),
'7041a0a':('C16','HRANDFIELD h -9223372036854775808 or a huge negative count: endless loop or unbounded memory'),
'04a62f3':('C02','HMGET missing f g: an empty array or nil'),
'887fe89':('C16','SRANDMEMBER s with a huge negative count: unbounded memory'),
'efd7537':('C05','SET k v; SRANDMEMBER k 0: no type error'),
'1be9c55':('C04','SADD s ""; SPOP s: answers nil'),
'816f663':('C05','SADD s a; SREM s a; EXISTS s: answers 1'),
'09680c3':('C04','SMOVE s missing a: answers 0 and loses or keeps the member'),
'6e7e8a8':('C07','SUNION live expired: the expired operand ends the command with an empty answer'),
'a70eafa':('C08','SUNIONSTORE d s str (str not a set): refused, but d is gone'),
'4f2d06b':('C05','SINTERSTORE d a b with an empty result: leaves an empty key d'),
'65a5652':('C04','SINTERSTORE d a missing: stores a instead of nothing'),
'09605eb':('C03','RPUSH l a a; LINSERT l BEFORE a x: inserts twice (AFTER with value = pivot never ends)'),
'6bc801b':('C16','LINDEX l -9223372036854775808: nil dereference, the server dies'),
'57772e6':('C03','LREM l -9223372036854775808 a: removes nothing'),
'3609dfe':('C08','LMOVE of a refused kind leaves an empty destination list'),
'824f20b':('C03','LPOP l 1: a bulk string where an array is promised'),
'cb4ff78':('C15','LPOP l 1 2: accepted'),
'4154aa8':('C03','LTRIM missing 0 1: an error'),
'a07f527':('C07','EXPIRE k -1 then KEYS/DBSIZE-like views by other clients: the key is still there until touched'),
'abbae56':('C12','TTL k || (deadline passes) || GET k: answers -2 although a later command still finds the key'),
'4cdb183':('C13','KEYS * || RENAME a b (b exists): b is missing from the answer'),
'70a9c32':('C13','KEYS * || GET a (expired): an expired key is listed'),
'b1601e0':('C13','KEYS * || RENAME a b with a deadline: b is seen with the old deadline of b and dropped'),
'4f6bb0e':('C21','-host ::1: the listen address is built without brackets and the program ends'),
'cde13e6':('C07','SET k v PX 1500 at x.9 s: the key is gone after 1.1 s'),
}
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','0578c7f..HEAD'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    p,w=P[h]
    out.append(dict(status='fixed',property=p,signature=h,what=f'fixed: property={p} {h} {w} ({s})'))
json.dump({'findings':out},open(here+'/known-findings.json','w'),indent=1,ensure_ascii=False); open(here+'/known-findings.json','a').write('\n')
print(len(out))
