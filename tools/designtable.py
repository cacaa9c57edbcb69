import json,glob,re,os
notes={
'C01':('all values of every integer type (pairs)','none within the types'),
'C02':('all values of every integer type; big.Int to 500 bits, with aliasing', 'wider big.Int'),
'C03':('all values; big.Int to 256 bits; all float bit patterns',''),
'C04':('all bounds and values of int, int8, uint64, a named int, float64, float32; one step from any reachable state (inductive: a Range has no hidden history)',''),
'C05':('all values of every integer type; big.Int to 600 bits', 'wider big.Int: same code path'),
'C06':('all values; big.Int to 80 bits, and to 1160 bits with up to 60 significant bits, or 131 of which 60 and one are free', 'big.Float of other precision than the conversions make'),
'C07':('every float64/float32 bit pattern; big.Float holding a float64 value; big.Float of 8 lengths up to 60 bits with 24 exponents from -1200 to 1024', 'big.Float of other lengths and exponents'),
'C08':('all int64 values, scales 0..18; every string of up to 4 (5) bytes; 17-20 digit texts','strings of 6-16 characters with odd bytes'),
'C09':('scales 0,2,18 (1,17) any value; 15-18 digits; small values scales 0-4; every pair of scales for values within 15 of one another, of a list', 'scale pairs not listed, for values far apart'),
'C10':('any two values, every pair of scales',''),
'C11':('any value by listed factors over scale pairs; any pair of up to 2 (3) digits; every pair of scales near listed values', 'general 18 x 18 digit products (nonlinear)'),
'C12':('every value, scale; divisors from a list and all above 2^63; up to 7 (13) parts','other large divisors'),
'C13':('any value by listed divisors and 1..12 (60); up to 2 digits by large ones; every pair of scales near listed values', 'general quotients (nonlinear)'),
'C14':('up to 3 symbolic elements (iterators concatenated: up to 3), any interleaving of Next, Value and Unread up to a bound, any failure position, every map order; 70 elements with up to 170 unread', 'longer sources'),
'C15':('all byte strings up to 4 (5) bytes for runes and 5 for bytes, every chunking of 2 characters, errors and empty reads anywhere; 3 arbitrary bytes after texts of up to 257 (4095) bytes', 'longer texts (the decoder keeps no state across characters)'),
'C16':('every text up to 5 (6) over CR, LF, other; any bytes to 3; read errors anywhere; 3 of them amid lines of up to 255 (4096)', 'other texts of that length'),
'C17':('up to 3 (4) symbolic elements per transform; values repeated up to 6 times; all parameters; 70 (140) elements of which two are arbitrary', 'other longer streams'),
'C18':('the same over a source that fails after any number of elements', 'other longer streams'),
'C19':('up to 3 (4) elements, all bucket sizes and thread counts around that number, every schedule; 25 (16, 31) elements of which two are arbitrary, 7 (9) sizes', 'more workers'),
'C20':('any ASCII text of 6 (8) characters after the opening quote (keys: 4 (5)), all backslash-u escapes and pairs, all UTF-8 lengths to 2 (3) characters; numbers of up to 6 (7); strings, keys and numbers of up to 600 characters with 1 (2) arbitrary', 'other longer texts'),
'C21':('every ASCII text up to 4 (5) characters; templates with symbolic parts for objects, keys, nesting, literals; 20 elements or keys, 30 levels, long white space with one or two arbitrary characters', 'longer texts of arbitrary shape'),
'C22':('trees to depth 2, symbolic texts of up to 2 (3) of any character, every number form, writers failing at any character; 40 elements, 21 keys, 30 levels, texts of 300 characters', 'other larger trees'),
'C23':('every ASCII path of up to 5 (7) characters, several steps, any index size, over one document of every shape per harness; paths of 12 steps, one arbitrary', 'other documents'),
'C24':('up to 5 (6) operations over symbolic ids of int, float, string; 9 (13) registrations, one arbitrary', 'RemoveId by a receiver during Send (unspecified)'),
'C25':('slices and maps of up to 3 (4) symbolic elements, any index, spare capacity; 70 elements of which two are arbitrary', 'other larger ones'),
'C26':('any history of up to 2-3 sets, values of every kind, nil included', '-'),
'C27':('up to 3 registrations over a set of patterns, symbolic methods and paths; 12 registrations, two of which match; 2-3 goroutines, every schedule', 'arbitrary regular expressions'),
'C28':('up to 5 (6) bytes or values, any buffer sizes, any failure position, partial writes; 600 bytes of which two are arbitrary, pieces of 5 sizes', 'other longer data'),
'C29':('up to 3 closers, panics and errors in every combination', '-'),
'C30':('texts to 5 characters, ints of all types, ratios of 30-70 bits over listed denominators','long decimal text to float64 beyond "nearest or error"'),
'C31':('all values of every numeric type, every text of up to 6 (8) characters as a number, trees of depth 2; 25 elements, keys and levels', '-'),
'C32':('identifiers to 6-7 characters; any ASCII text to 4-5; 12 words of up to 20 with two arbitrary characters', ''),
'C33':('all values of every type; big to 256 bits','complex off the axes (irrational magnitudes)'),
'C34':('a tree of a few entries, 2-3 operations, any one operation failing, several spellings of a path','"../x" containment, Src before Dir (unspecified by micro)'),
'C35':('one type per reflect kind, 0-3 pointers, each nil or not',''),
'C36':('documents of up to 4 (5) characters over the CSV alphabet, quoted fields; 12 rows of up to 5000 characters; content types within one character of the known ones and any up to 3', 'gzip streams other than the whole, cut and damaged ones of three texts'),
'C37':('all constants and constructors',''),
'C38':('inputs of the checks of the wrapped functions, all Must functions',''),
}
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
seeds={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append(os.path.basename(os.path.dirname(f)))
T={}
for f in glob.glob('/verif/evidence/C*.json'):
    if f.count('.')==1:
        d=json.load(open(f)); T[f[-8:-5]]=round(d['wall_s'] if 'wall_s' in d else d['coverage']['wall_s'])
out=[]
out.append('| id | property | decided for | outside | s | seeds |')
out.append('|---|---|---|---|---|---|')
for i in sorted(props):
    n=notes[i]
    out.append('| %s | %s | %s | %s | %d | %s |'%(i,props[i]['title'],n[0],n[1] or '-',T[i],', '.join(s.split('-',1)[1] for s in seeds.get(i,[])) or '-'))
out+=['','### Harnesses','']
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    if f.count('.')>1: continue
    d=json.load(open(f)); c=d['coverage']
    out.append('* **%s**'%f[-8:-5])
    for b in c['bounds']:
        h,_,t=b.partition(': '); t=t.replace(h+': ','')
        out.append('  * `%s` %s'%(h,t.strip()))
p='/verif/DESIGN.md'
s=open(p).read()
a=s.index('| id | property |'); b=s.index('## Defects found')
open(p,'w').write(s[:a]+'\n'.join(out)+'\n\n'+s[b:])
