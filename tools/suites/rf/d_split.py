r("split map via B",(TG,"""	name, args, ok := strings.Cut(path, "?")
	if !ok || strings.Contains(name, "=") {
		err = ErrPathInvalid{"name", "not found"}
	}
	tags = make(map[string]string)
	tags["__name__"] = escape.Unescape(name)
	var (
		kv, k, v string
	)
	for args != "" {
		if k, v, args, ok = NextTag(args); ok {
			key := escape.Unescape(k)
			tags[key] = escape.Unescape(v)
		} else {
			err = ErrPathInvalid{kv, "not delimited with ="}
			break
		}
	}
	return
""","""	tags = make(map[string]string)
	err = PathTagsMapB(path, tags)
	return
"""))
r("split locals",(TG,"tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})","tag := Tag{Key: escape.Unescape(k)}\n			tag.Value = escape.Unescape(v)\n			tags = append(tags, tag)"))
r("split not ok first",(TG,"""		if k, v, args, ok = NextTag(args); ok {
			tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
		} else {
			err = ErrPathInvalid{kv, "not delimited with ="}
			break
		}
""","""		k, v, args, ok = NextTag(args)
		if !ok {
			return tags, ErrPathInvalid{kv, "not delimited with ="}
		}
		tags = append(tags, Tag{Key: escape.Unescape(k), Value: escape.Unescape(v)})
"""))
r("split helper for name",(TG,"""	name, args, ok := strings.Cut(path, "?")
	if !ok || strings.Contains(name, "=") {
		err = ErrPathInvalid{"name", "not found in " + name}
	}
""","""	name, args, err := cutName(path)
	ok := true
"""),(TG,"// TagsMap convert","""func cutName(path string) (name, args string, err error) {
	var ok bool
	name, args, ok = strings.Cut(path, "?")
	if !ok || strings.IndexByte(name, '=') >= 0 {
		err = ErrPathInvalid{"name", "not found in " + name}
	}
	return
}

// TagsMap convert"""))
r("split early return",(TG,"""	if !ok || strings.Contains(name, "=") {
		err = ErrPathInvalid{"name", "not found in " + name}
	}
	tagsCount""","""	if !ok {
		err = ErrPathInvalid{"name", "not found in " + name}
	} else if strings.Contains(name, "=") {
		err = ErrPathInvalid{"name", "not found in " + name}
	}
	tagsCount"""))
r("split make var",(TG,"tags = make([]Tag, 0, tagsCount)","tags = make([]Tag, 1, tagsCount)\n	tags[0] = Tag{Key: \"__name__\", Value: escape.Unescape(name)}",1),(TG,"""		kv, k, v string
	)
	tags = append(tags, Tag{Key: "__name__", Value: escape.Unescape(name)})
	for args != "" {
		if k, v, args, ok = NextTag""","""		kv, k, v string
	)
	for args != "" {
		if k, v, args, ok = NextTag"""))
r("split NextTag by index",(TG,"""	tag, next, found = strings.Cut(tags, "=")
	if found {
		value, next, _ = strings.Cut(next, "&")
	}
	return
""","""	pos := strings.IndexByte(tags, '=')
	if pos == -1 {
		return tags, "", "", false
	}
	found = true
	tag, next = tags[:pos], tags[pos+1:]
	if end := strings.IndexByte(next, '&'); end >= 0 {
		return tag, next[:end], next[end+1:], found
	}
	return tag, next, "", found
"""))
r("split one NextTag with separator",(TG,"""	tag, next, found = strings.Cut(tags, "=")
	if found {
		value, next, _ = strings.Cut(next, "&")
	}
	return
""","""	return nextTag(tags, "&")
"""),(TG,"""	tag, next, found = strings.Cut(tags, "=")
	if found {
		value, next, _ = strings.Cut(next, ";")
	}
	return
""","""	return nextTag(tags, ";")
"""),(TG,"// TagsMap convert","""func nextTag(tags, sep string) (tag, value, next string, found bool) {
	if tag, next, found = strings.Cut(tags, "="); found {
		value, next, _ = strings.Cut(next, sep)
	}
	return
}

// TagsMap convert"""))
r("split TagsMap range",(TG,"""	for i := 0; i < len(tags); i++ {
		tagsMap[tags[i].Key] = tags[i].Value
	}
""","""	for _, tag := range tags {
		tagsMap[tag.Key] = tag.Value
	}
"""))
r("split map len loop",(TG,"""	for args != "" {
		if k, v, args, ok = NextTag(args); ok {
			key := escape.Unescape(k)
			tags[key] = escape.Unescape(v)
""","""	for len(args) > 0 {
		if k, v, args, ok = NextTag(args); ok {
			tags[escape.Unescape(k)] = escape.Unescape(v)
"""))
r("split fill helper",(TG,"""	for args != "" {
		if k, v, args, ok = NextTag(args); ok {
			key := escape.Unescape(k)
			tags[key] = escape.Unescape(v)
		} else {
			err = ErrPathInvalid{kv, "not delimited with ="}
			break
		}
	}
	return
}

// PathTagsMapB""","""	for args != "" {
		if k, v, args, ok = NextTag(args); !ok {
			err = ErrPathInvalid{kv, "not delimited with ="}
			break
		}
		putTag(tags, k, v)
	}
	return
}

func putTag(tags map[string]string, k, v string) {
	tags[escape.Unescape(k)] = escape.Unescape(v)
}

// PathTagsMapB"""))
