import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C21"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
T="gtags/tagged_term.go"
PUT="			key := escape.Unescape(k)\n			tags[key] = escape.Unescape(v)\n"
for i in range(4):
    m([(T,PUT,"			tags[k] = escape.Unescape(v)\n",i)],f"V key raw {i}")
    m([(T,PUT,"			key := escape.Unescape(k)\n			if v != \"\" { tags[key] = escape.Unescape(v) }\n",i)],f"V empty value dropped {i}")
    m([(T,PUT,"			key := escape.Unescape(k)\n			if _, dup := tags[key]; !dup { tags[key] = escape.Unescape(v) }\n",i)],f"V first wins {i}")
m([(T,PUT,"			key := escape.Unescape(k)\n			tags[key] = v\n",3)],"V value raw")
m([(T,"tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})","if len(tags) < tagsCount-1 { tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)}) }")],"V last dropped")
m([(T,"tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})","tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(escape.Unescape(v))})",1)],"V twice unescaped")
m([(T,"	for key := range tags {\n		delete(tags, key)\n	}\n","")],"V map not cleared")
m([(T,"	for key := range tags {\n		delete(tags, key)\n	}\n","	for key := range tags {\n		if key != \"__name__\" { delete(tags, key) }\n	}\n",1)],"REF map cleared but name")
m([(T,"	for key := range tags {\n		delete(tags, key)\n	}\n","	for key := range tags {\n		if len(tags) > 1 { delete(tags, key) }\n	}\n",1)],"V map cleared but one")
m([(T,"	for key := range tags {\n		delete(tags, key)\n	}\n","	clear(tags)\n",1)],"REF clear")
m([(T,'		value, next, _ = strings.Cut(next, "&")','		if i := strings.LastIndexByte(next, \'&\'); i != -1 {\n			value, next = next[:i], next[i+1:]\n		} else {\n			value, next = next, ""\n		}')],"V last sep")
m([(T,'		value, next, _ = strings.Cut(next, "&")','		if i := strings.IndexByte(next, \'&\'); i != -1 {\n			value, next = next[:i], next[i+1:]\n		} else {\n			value, next = next, ""\n		}')],"REF index sep")
m([(T,'		value, next, _ = strings.Cut(next, "&")','		value, next, _ = strings.Cut(next, "&")\n		next = strings.TrimLeft(next, "&")')],"V trims seps")
m([(T,'	tag, next, found = strings.Cut(tags, "=")\n	if found {\n		value, next, _ = strings.Cut(next, ";")','	tag, next, found = strings.Cut(tags, "=")\n	if found && tag != "" {\n		value, next, _ = strings.Cut(next, ";")')],"V empty key")
m([(T,'		value, next, _ = strings.Cut(next, ";")','		value, next, _ = strings.Cut(next, "&")')],"V wrong sep")
m([(T,'Tag{Key: "__name__", Value: escape.Unescape(name)}','Tag{Key: "__name__", Value: name}')],"V name raw")
m([(T,'	tags["__name__"] = escape.Unescape(name)\n	var','	if name != "" { tags["__name__"] = escape.Unescape(name) }\n	var')],"V empty name left out")
m([(T,'	if !ok || strings.Contains(name, "=") {','	if !ok && strings.Contains(name, "=") {')],"V name check and")
m([(T,'	if !ok || strings.Contains(name, "=") {','	if !ok {',4)],"V name = not refused")
m([(T,'	if !ok || strings.Contains(name, "=") {','	if !ok || strings.Contains(name, "=") || name == "" {',4)],"V empty name refused")
m([(T,'			err = ErrPathInvalid{kv, "not delimited with ="}\n			break','			if k != "" { err = ErrPathInvalid{kv, "not delimited with ="} }\n			break')],"V error lost")
m([(T,'			err = ErrPathInvalid{kv, "not delimited with ="}\n			break','			err = ErrPathInvalid{kv, "not delimited with ="}',3)],"REF error goes on")
m([(T,'			err = ErrPathInvalid{kv, "not delimited with ="}\n			break','			break',3)],"V error swallowed")
m([(T,'	for i := 0; i < len(tags); i++ {\n		tagsMap','	for i := len(tags) - 1; i >= 0; i-- {\n		tagsMap')],"V first wins map")
m([(T,'	for i := 0; i < len(tags); i++ {\n		tagsMap[','	for i := 0; i < len(tags); i++ {\n		if tags[i].Value == "" { continue }\n		tagsMap[')],"V empty left out map")
m([(T,'	for args != "" {\n		if k, v, args, ok = NextTag','	for len(args) > 1 {\n		if k, v, args, ok = NextTag')],"V ends early")
