import sys; sys.path.insert(0,'/tmp')
from mut import mut
R=sys.argv[1] if len(sys.argv)>1 else "C23"
L=sys.argv[2] if len(sys.argv)>2 else ""
def m(e,l):
    if L in l: mut(R,e,l)
S="pkg/items/store.go"
m([(S,"	if s.Min < 0 || s.Min > index {","	if s.Min < 0 || s.Min < index {")],"V max")
m([(S,"	if s.Min < 0 || s.Min > index {","	if s.Min <= 0 || s.Min > index {")],"V zero lost")
m([(S,"	if s.Min < 0 || s.Min > index {","	if s.Min == -1 || s.Min > index {")],"V? -1")
m([(S,"func (s *MinStore) Init() {\n	s.Min = -1","func (s *MinStore) Init() {\n	s.Min = 0")],"V init 0")
m([(S,"	s.Min.Store(sn, index)\n","	if s.Index.N[0] == index {\n		s.Min.Store(sn, index)\n	}\n")],"V only first")
m([(S,"	s.S.Store(sn, index)\n","	if len(s.S.S) == 0 || s.S.S[len(s.S.S)-1] != sn {\n		s.S.Store(sn, index)\n	}\n")],"V dedup")
m([(S,"	s.Index.Init()\n","")],"V init all index")
m([(S,"	if len(s.S) > 0 {\n		s.S = s.S[:0]","	if len(s.S) > 1 {\n		s.S = s.S[:0]")],"V init one")
m([(S,"		newN := make([]int, len(s.N), n)\n		copy(newN, s.N)","		newN := make([]int, len(s.N), n)")],"V grow no copy")
m([(S,"		newS := make([]string, len(s.S), n)","		newS := make([]string, n)")],"V grow len")
m([(S,"		newS := make([]string, len(s.S), n)\n		copy(newS, s.S)\n		s.S = newS","		s.S = make([]string, 0, n)")],"V grow drops")
m([(S,"	return &AllStore{Min: MinStore{-1}}","	return &AllStore{}")],"V new all")
m([(S,"	if n > cap(s.N) {\n		newN := make([]int, len(s.N), n)\n		copy(newN, s.N)\n		s.N = newN\n	}","	if n > cap(s.N) {\n		s.N = append(make([]int, 0, n), s.N...)\n	}")],"REF append")
m([(S,"	if s.Min < 0 || s.Min > index {\n		s.Min = index\n	}","	if s.Min >= 0 && s.Min <= index {\n		return\n	}\n	s.Min = index")],"REF early")
m([(S,"	if len(s.S) > 0 {\n		s.S = s.S[:0]\n	}","	s.S = s.S[:0]")],"REF init")
m([(S,"	if len(s.S) > 0 {\n		s.S = s.S[:0]\n	}","	s.S = nil")],"REF init nil")
m([(S,"	return &AllStore{Min: MinStore{-1}}","	s := &AllStore{}\n	s.Init()\n	return s")],"REF new")
m([(S,"	s.Index.Store(sn, index)\n	s.Min.Store(sn, index)","	s.Min.Store(sn, index)\n	s.Index.N = append(s.Index.N, index)")],"REF inline")
