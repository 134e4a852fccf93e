# Edits for run.py: (file, old, new[, occurrence]).
M = []
def m(name, want, *edits):
    M.append(dict(name=name, want=want, edits=edits))
P = "parallel/parallel.go"
S = "speculative/speculative.go"
m("par-drop-defer-wait-Do", "C01", (P, "	wg.Add(1)\n	defer wg.Wait()\n", "	wg.Add(1)\n", 3))
m("par-late-done", "C01", (P, "p = internal.WrapPanic(recover())\n				wg.Done()", "wg.Done()\n				p = internal.WrapPanic(recover())", 0))
m("par-half-off", "C02", (P, "right = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)", "right = Reduce(join, moreFunctions[half-1], moreFunctions[half+1:]...)"))
m("par-swap-join", "C03", (P, "return join(left, right)", "return join(right, left)"))
m("par-range-mid", "C05", (P, "mid := low + batchSize*half", "mid := low + batchSize*half + 1", 2))
m("par-range-guard", "C05", (P, "if batchSize*half >= high-low {", "if batchSize*half > high-low {", 2))
m("par-range-drop-guard", "C05", (P, "if batchSize*half >= high-low {", "if batchSize*half < 0 {", 1))
m("par-and-or", "C03", (P, "return b0 && b1", "return b0 || b1", 0))
m("par-wg-add-inside", "C01", (P, "wg.Add(1)\n	defer wg.Wait()\n	if len(moreFunctions) == 1 {\n		go func() {\n", "defer wg.Wait()\n	if len(moreFunctions) == 1 {\n		go func() {\n wg.Add(1)\n"))
m("spec-and-wait", "C08", (S, "	if !b0 {\n		return false\n	}\n	wg.Wait()", "	wg.Wait()\n	if !b0 {\n		return false\n	}"))
m("spec-or-flip", "C07", (S, "	if b0 {\n		return true\n	}", "	if b0 {\n		return false\n	}", 1))
m("spec-drop-wait", "C09", (S, "	wg.Wait()\n	if p != nil {\n		panic(p)\n	}\n	return b1", "	if p != nil {\n		panic(p)\n	}\n	return b1", 0))
m("wrap-no-w", "C04", ("internal/internal.go", '"%w\\n%s\\nrethrown at"', '"%v\\n%s\\nrethrown at"'))
m("wrap-swallow", "C04", (P, "	if p != nil {\n		panic(p)\n	}\n	return b0 && b1", "	_ = p\n	return b0 && b1"))
m("spec-panic-before-decision", "C04", (S, "	if b0 {\n		return left, true\n	}\n	wg.Wait()\n	if p != nil {\n		panic(p)\n	}\n	if b1 {", "	if b0 {\n		return left, true\n	}\n	wg.Wait()\n	_ = p\n	if b1 {"))
m("batches-cap", "C06", ("internal/internal.go", "if batches > size {", "if batches > size+1 {"))
m("batches-default0", "C06", ("internal/internal.go", "batches = 2 * runtime.NumCPU()", "batches = 2 * (runtime.NumCPU()-1)"))
m("ok-helper-fork", "", (P, "type Addable interface", """// fork runs both functions in parallel.
func fork(left, right func()) {
	var p interface{}
	var wg sync.WaitGroup
	wg.Add(1)
	defer wg.Wait()
	go func() {
		defer func() {
			p = internal.WrapPanic(recover())
			wg.Done()
		}()
		right()
	}()
	left()
	wg.Wait()
	if p != nil {
		panic(p)
	}
}

type Addable interface"""), (P, """	var left, right T
	var p interface{}
	var wg sync.WaitGroup
	wg.Add(1)
	defer wg.Wait()
	if len(moreFunctions) == 1 {
		go func() {
			defer func() {
				p = internal.WrapPanic(recover())
				wg.Done()
			}()
			right = moreFunctions[0]()
		}()
		left = firstFunction()
	} else {
		half := (len(moreFunctions) + 1) / 2
		go func() {
			defer func() {
				p = internal.WrapPanic(recover())
				wg.Done()
			}()
			right = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)
		}()
		left = Reduce(join, firstFunction, moreFunctions[:half]...)
	}
	wg.Wait()
	if p != nil {
		panic(p)
	}
	return join(left, right)""", """	var left, right T
	if len(moreFunctions) == 1 {
		fork(func() { left = firstFunction() }, func() { right = moreFunctions[0]() })
	} else {
		half := (len(moreFunctions) + 1) / 2
		fork(func() { left = Reduce(join, firstFunction, moreFunctions[:half]...) },
			func() { right = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...) })
	}
	return join(left, right)"""))
m("ok-generic-reduce-two", "", (P, "	if len(moreFunctions) == 0 {\n		return firstFunction()\n	}\n	var left, right T", "	n := len(moreFunctions)\n	if n < 1 {\n		return firstFunction()\n	}\n	var right, left T"))
m("ok-switch-to-if", "", (P, """	switch len(thunks) {
	case 0:
		return
	case 1:
		thunks[0]()
		return
	}""", """	if len(thunks) == 0 {
		return
	}
	if len(thunks) == 1 {
		thunks[0]()
		return
	}"""))
m("ok-wrap-switch", "", ("internal/internal.go", """	if p != nil {
		if err, isError := p.(error); isError {
			return fmt.Errorf("%w\\n%s\\nrethrown at", err, debug.Stack())
		}
		return fmt.Sprintf("%v\\n%s\\nrethrown at", p, debug.Stack())
	}
	return nil""", """	stack := debug.Stack()
	switch x := p.(type) {
	case nil:
		return nil
	case error:
		return fmt.Errorf("%w\\n%s\\nrethrown at", x, stack)
	default:
		return fmt.Sprintf("%v\\n%s\\nrethrown at", x, stack)
	}"""))
m("ok-range-iter", "", (P, """		switch {
		case n == 1:
			f(low, high)
		case n > 1:
			batchSize := ((high - low - 1) / n) + 1
			half := n / 2
			mid := low + batchSize*half
			if batchSize*half >= high-low {
				f(low, high)
				return
			}
			var p""", """		if n < 1 {
			panic(fmt.Sprintf("invalid number of batches: %v", n))
		}
		size := high - low
		half := n / 2
		left := ((size - 1) / n + 1) * half
		switch {
		case n == 1 || left >= size:
			f(low, high)
		default:
			mid := low + left
			var p"""), (P, """			recur(low, mid, half)
			wg.Wait()
			if p != nil {
				panic(p)
			}
			return
		default:
			panic(fmt.Sprintf("invalid number of batches: %v", n))
		}""", """			recur(low, mid, half)
			wg.Wait()
			if p != nil {
				panic(p)
			}
		}"""))
PS = "func PrefixSum[T Addable](slice []T) []T {\n"
m("ps-swap", "C10", (P, "slice[j-l] + slice[j]", "slice[j] + slice[j-l]"))
m("ps-shift", "C10", (P, "slice[j-l] + slice[j]", "slice[j-l+1] + slice[j]"))
m("ps-inplace", "C10", (P, "result[j] = slice[j-l] + slice[j]", "slice[j] = slice[j-l] + slice[j]"))
m("ps-no-swap", "C10", (P, "slice, result = result, slice", "slice = result"))
m("ps-copy-short", "C10", (P, "Range(0, l, 0, func(low, high int) {\n				for j := low; j < high; j++ {", "Range(0, l, 0, func(low, high int) {\n				for j := low; j < high-1; j++ {"))
m("ps-copy-bound", "C10", (P, "			Range(0, l, 0,", "			Range(0, l-1, 0,"))
m("ps-rounds", "C10", (P, "math.Ceil(math.Log2(", "math.Floor(math.Log2("))
m("ps-linear", "C10", (P, "math.Exp2(float64(i))", "float64(i+1)"))
m("ps-ret", "C10", (P, "		slice, result = result, slice\n	}\n	return slice", "		slice, result = result, slice\n	}\n	return result"))
m("ps-limit", "C10", (P, "Range(l, len(slice), 0", "Range(l, len(slice)-1, 0"))
PSL = "	for i := range int(math.Ceil(math.Log2(float64(len(slice))))) {\n		l := int(math.Exp2(float64(i)))\n"
m("ok-ps-doubling", "", (P, PSL, "	for l := 1; l < len(slice); l *= 2 {\n"), (P, '	"math"\n', ""))
m("ok-ps-shift", "", (P, PSL, "	for l := 1; l < len(slice); l <<= 1 {\n"), (P, '	"math"\n', ""))
m("ok-ps-copy", "", (P, "				for j := low; j < high; j++ {\n					result[j] = slice[j]\n				}\n", "				copy(result[low:high], slice[low:high])\n"))
m("ok-ps-early", "", (P, PS, PS + "	if len(slice) < 2 {\n		return slice\n	}\n"))
m("ok-ps-early0", "", (P, PS, PS + "	if len(slice) == 0 {\n		return slice\n	}\n"))
m("ok-ps-vars", "", (P, PSL, "	n := len(slice)\n	rounds := int(math.Ceil(math.Log2(float64(n))))\n	for i := 0; i < rounds; i++ {\n		l := 1 << i\n"), (P, "Range(l, len(slice), 0", "Range(l, n, 0"))
m("ok-ps-range", "", (P, "for j := low; j < high; j++ {\n					result[j] = slice[j-l]", "for j := range high - low {\n					j += low\n					result[j] = slice[j-l]"))
m("ok-ps-seqcopy", "", (P, """			Range(0, l, 0, func(low, high int) {
				for j := low; j < high; j++ {
					result[j] = slice[j]
				}
			})
""", "			copy(result[:l], slice[:l])\n"))
m("ok-ps-order", "", (P, """func() {
			Range(0, l, 0, func(low, high int) {
				for j := low; j < high; j++ {
					result[j] = slice[j]
				}
			})
		}, func() {""", "func() {"), (P, "		slice, result = result, slice\n", "		copy(result[:l], slice)\n		slice, result = result, slice\n"))
m("ok-ps-helper", "", (P, PS, "func scanStep[T Addable](dst, src []T, l int) {\n	Range(l, len(src), 0, func(low, high int) {\n		for j := low; j < high; j++ {\n			dst[j] = src[j-l] + src[j]\n		}\n	})\n}\n\n" + PS), (P, """			Range(l, len(slice), 0, func(low, high int) {
				for j := low; j < high; j++ {
					result[j] = slice[j-l] + slice[j]
				}
			})
""", "			scanStep(result, slice, l)\n"))
G = "gsync/sync.go"
m("gs-cas-args", "C17", (G, "CompareAndSwap(key, old, new)", "CompareAndSwap(key, new, old)"))
m("gs-load-panic", "C17", (G, "	if ok {\n		value, _ = v.(V)\n	}", "	if ok {\n		value = v.(V)\n	}"))
m("gs-lad", "C17", (G, "(*sync.Map)(m).LoadAndDelete(key)", "(*sync.Map)(m).Load(key)"))
m("gs-los", "C17", (G, "	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)\n	actual, _ = v.(V)\n", "	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)\n	if loaded {\n		actual, _ = v.(V)\n	}\n"))
m("gs-range-neg", "C17", (G, "return f(key, value)", "return !f(key, value)"))
m("gs-range-true", "C17", (G, "return f(key, value)", "f(key, value)\n		return true"))
m("gs-range-skip", "C17", (G, "		key, _ := k.(K)\n		value, _ := v.(V)\n", "		key, _ := k.(K)\n		value, ok := v.(V)\n		if !ok {\n			return true\n		}\n"))
m("gs-swap", "C17", (G, "		previous, _ = prev.(V)\n	}\n	return", "		previous, _ = prev.(V)\n		loaded = prev != nil\n	}\n	return"))
m("gs-swap-nonatomic", "C17", (G, "prev, loaded := (*sync.Map)(m).Swap(key, value)", "prev, loaded := (*sync.Map)(m).Load(key)\n	(*sync.Map)(m).Store(key, value)"))
m("gs-pool-store", "C18", (G, "	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()", "	p.syncPool.Store(result)\n	return result"))
m("gs-pool-ret", "C18", (G, "	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()", "	p.syncPool.CompareAndSwap(nil, result)\n	return result"))
m("gs-pool-untyped", "C18", (G, "return (*T)(nil)", "return nil"))
m("gs-pool-nonew", "C18", (G, "			return p.New()\n", "			return new(T)\n"))
m("gs-pool-capture", "C18", (G, "	result := &sync.Pool{", "	newFn := p.New\n	result := &sync.Pool{"), (G, "			if p.New == nil {", "			if newFn == nil {"), (G, "			return p.New()\n", "			return newFn()\n"))
m("gs-pool-put", "C18", (G, "	p.getSyncPool().Put(x)", "	if x != nil && p.New != nil {\n		p.getSyncPool().Put(x)\n	}"))
m("gs-pool-put2", "C18", (G, "	p.getSyncPool().Put(x)", "	s := p.getSyncPool()\n	s.Put(x)\n	s.Put(x)"))
m("ok-gs-helper", "", (G, "type Map[K comparable", "func as[T any](x any) (t T) {\n	t, _ = x.(T)\n	return\n}\n\n// Map is\ntype Map[K comparable"),
  (G, "		key, _ := k.(K)\n		value, _ := v.(V)\n		return f(key, value)", "		return f(as[K](k), as[V](v))"),
  (G, "	if loaded {\n		previous, _ = prev.(V)\n	}\n	return\n", "	return as[V](prev), loaded\n"),
  (G, "	if ok {\n		value, _ = v.(V)\n	}\n	return value, ok", "	if !ok {\n		return value, false\n	}\n	return as[V](v), true"))
m("ok-gs-map", "", (G, "func (m *Map[K, V]) Delete(key K) {\n	(*sync.Map)(m).Delete(key)", "func (m *Map[K, V]) base() *sync.Map { return (*sync.Map)(m) }\n\nfunc (m *Map[K, V]) Delete(key K) {\n	m.base().Delete(key)"),
  (G, "	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)\n	actual, _ = v.(V)\n	return actual, loaded", "	v, loaded := m.base().LoadOrStore(key, value)\n	if !loaded {\n		return value, false\n	}\n	if v != nil {\n		actual = v.(V)\n	}\n	return actual, true"))
m("ok-gs-range", "", (G, "	(*sync.Map)(m).Range(func(k any, v any) bool {\n		// the assertions only fail for nil values of interface types\n		key, _ := k.(K)\n		value, _ := v.(V)\n		return f(key, value)\n	})", """	visit := func(k any, v any) bool {
		key, _ := k.(K)
		value, _ := v.(V)
		if !f(key, value) {
			return false
		}
		return true
	}
	(*sync.Map)(m).Range(visit)"""))
m("ok-gs-pool", "", (G, "	if result := p.syncPool.Load(); result != nil {\n		return result\n	}\n", "	sp := p.syncPool.Load()\n	if sp != nil {\n		return sp\n	}\n"),
  (G, "	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()", "	if !p.syncPool.CompareAndSwap(nil, result) {\n		result = p.syncPool.Load()\n	}\n	return result"))
m("ok-gs-pool2", "", (G, "func (p *Pool[T]) getSyncPool() *sync.Pool {", "func (p *Pool[T]) newValue() any {\n	if p.New != nil {\n		return p.New()\n	}\n	var none *T\n	return none\n}\n\nfunc (p *Pool[T]) getSyncPool() *sync.Pool {"),
  (G, "New: func() any {\n			if p.New == nil {\n				return (*T)(nil)\n			}\n			return p.New()\n		},", "New: p.newValue,"))
m("ok-gs-pool3", "", (G, "	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()", "	for {\n		if p.syncPool.CompareAndSwap(nil, result) {\n			return result\n		}\n		if other := p.syncPool.Load(); other != nil {\n			return other\n		}\n	}"))
m("ok-gs-pool4", "", (G, "	return p.getSyncPool().Get().(*T)", "	x, _ := p.getSyncPool().Get().(*T)\n	return x"), (G, "return (*T)(nil)", "return nil"))
PS_ = "psort/sort.go"
FL = "s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])"
m("ad-nan-last", "C16", (PS_, FL, "s[i] < s[j] || (s[i] == s[i] && s[j] != s[j])"))
m("ad-nan-none", "C16", (PS_, FL, "s[i] < s[j]"))
m("ad-nan-both", "C16", (PS_, FL, "s[i] < s[j] || s[i] != s[i]"))
m("ad-nan-notge", "C16", (PS_, FL, "!(s[i] >= s[j])"))
m("ad-le", "C16", (PS_, "	return s[i] < s[j]\n", "	return s[i] <= s[j]\n", 0))
m("ad-str-gt", "C16", (PS_, "	return s[i] < s[j]\n", "	return s[j] < s[i]\n", 1))
m("ad-overflow", "C16", (PS_, "	return s[i] < s[j]\n", "	return s[i]-s[j] < 0\n", 0))
m("ad-unstable-float", "C16", (PS_, "sort.Stable(sort.Float64Slice(s[i:j]))", "sort.Sort(sort.Float64Slice(s[i:j]))"))
m("ad-seq-range", "C16", (PS_, "sort.Stable(sort.StringSlice(s[i:j]))", "sort.Stable(sort.StringSlice(s[i:j-1]))"))
m("ad-seq-rev", "C16", (PS_, "sort.Stable(sort.StringSlice(s[i:j]))", "sort.Stable(sort.Reverse(sort.StringSlice(s[i:j])))"))
m("ad-newtemp-alias", "C16", (PS_, "IntSlice(make([]int, len(s)))", "IntSlice(s[:len(s):len(s)])"))
m("ad-newtemp-short", "C16", (PS_, "StringSlice(make([]string, len(s)))", "StringSlice(make([]string, 0, len(s)))"))
m("ad-assign-swap", "C16", (PS_, "copy(dst[i:i+len], src[j:j+len])", "copy(dst[j:j+len], src[i:i+len])", 1))
m("ad-assign-dir", "C16", (PS_, "copy(dst[i:i+len], src[j:j+len])", "copy(src[i:i+len], dst[j:j+len])", 2))
m("ad-assign-short", "C16", (PS_, "copy(dst[i:i+len], src[j:j+len])", "copy(dst[i:i+len], src[j:j+len-1])", 0))
m("ad-swap", "C16", (PS_, "	s[i], s[j] = s[j], s[i]\n", "	s[i] = s[j]\n	s[j] = s[i]\n", 1))
m("ok-ad-less", "", (PS_, FL, "cmp.Less(s[i], s[j])"), (PS_, '	"sort"\n', '	"cmp"\n	"sort"\n'))
m("ok-ad-less2", "", (PS_, "	return "+FL, "	a, b := s[i], s[j]\n	if math.IsNaN(a) {\n		return !math.IsNaN(b)\n	}\n	return a < b"), (PS_, '	"sort"\n', '	"math"\n	"sort"\n'))
m("ok-ad-less3", "", (PS_, "	return s[i] < s[j]\n", "	return s[j] > s[i]\n", 0), (PS_, "	return "+FL, "	if s[i] != s[i] {\n		return s[j] == s[j]\n	}\n	return s[i] < s[j]"), (PS_, "	return s[i] < s[j]\n}\n\nfunc (s StringSlice)", "	return sort.StringSlice(s).Less(i, j)\n}\n\nfunc (s StringSlice)"))
m("ok-ad-swap", "", (PS_, "	s[i], s[j] = s[j], s[i]\n", "	tmp := s[i]\n	s[i] = s[j]\n	s[j] = tmp\n", 1), (PS_, "	s[i], s[j] = s[j], s[i]\n", "	sort.IntSlice(s).Swap(i, j)\n", 0))
m("ok-ad-seq", "", (PS_, "sort.Stable(sort.StringSlice(s[i:j]))", "sort.Strings(s[i:j])"), (PS_, "sort.Stable(sort.IntSlice(s[i:j]))", "part := s[i:j]\n	if len(part) < 2 {\n		return\n	}\n	sort.Stable(part)"), (PS_, "sort.Stable(sort.Float64Slice(s[i:j]))", "slices.SortStableFunc(s[i:j], cmp.Compare[float64])"), (PS_, '	"sort"\n', '	"cmp"\n	"slices"\n	"sort"\n'))
m("ok-ad-assign", "", (PS_, "		copy(dst[i:i+len], src[j:j+len])\n", "		for k := range len {\n			dst[i+k] = src[j+k]\n		}\n", 0), (PS_, "		copy(dst[i:i+len], src[j:j+len])\n", "		copy(dst[i:], src[j:j+len])\n", 1))
m("ok-ad-assign2", "", (PS_, "		copy(dst[i:i+len], src[j:j+len])\n", "		for k := i; k < i+len; k++ {\n			dst[k] = src[k-i+j]\n		}\n", 0), (PS_, "copy(dst[i:i+len], src[j:j+len])", "assignRange(dst, src, i, j, len)", 0), (PS_, "type IntSlice", "func assignRange[T any](dst, src []T, i, j, n int) {\n	copy(dst[i:i+n], src[j:j+n])\n}\n\n// IntSlice is\ntype IntSlice"))
m("ok-ad-newtemp", "", (PS_, "	return IntSlice(make([]int, len(s)))", "	tmp := make(IntSlice, s.Len())\n	return tmp"))

F = "pipeline/filters.go"
FI = "pipeline/filter.go"
m("fl-ok-limit-seen-gt", "", (F, "if seen >= limit {", "if seen > limit {"))
m("fl-limit-slice", "C28", (F, "result = data[:limit-seen]", "result = data[:limit]"))
m("fl-limit-noseen", "C28", (F, "					result = data\n					seen += l", "					result = data\n					seen += cap(data)"))
m("fl-limit-cross", "C28", (F, "if (seen + l) > limit {", "if (seen + l) > limit+1 {"))
m("fl-limit-size", "C28", (F, "case (*size < 0) || (*size > limit):\n			if *size > 0 {", "case (*size < 0) || (*size > limit):\n			if *size != 0 {"))
m("fl-limit-passthru", "C28", (F, "case (*size < 0) || (*size > limit):", "case *size > limit:"))
m("fl-limit-par", "C28", (F, "	return Ord(func(pipeline *Pipeline[[]T], _ NodeKind, size *int) (receiver Receiver[[]T], _ Finalizer) {\n		switch {\n		case limit < 0", "	return Seq(func(pipeline *Pipeline[[]T], _ NodeKind, size *int) (receiver Receiver[[]T], _ Finalizer) {\n		switch {\n		case limit < 0"))
m("fl-limit-cancel-early", "C28", (F, "if cancelWhenReached && (seen == limit) {", "if cancelWhenReached && (seen >= limit-1) {"))
m("fl-limit-zero-cancel", "C28", (F, "			if cancelWhenReached {\n				pipeline.Cancel()\n			}\n			receiver = func(_ int, _ []T)", "			pipeline.Cancel()\n			receiver = func(_ int, _ []T)"))
m("fl-skip-slice", "C28", (F, "result = data[n-seen:]", "result = data[n:]"))
m("fl-skip-size", "C28", (F, "				*size -= n", "				*size = n"))
m("fl-skip-eq", "C28", (F, "case *size <= n:\n			*size = 0\n			receiver = func(_ int, _ []T) []T { return nil }", "case *size <= n:\n			*size = 0"))
m("fl-skip-noerr", "C28", (F, '			pipeline.SetErr(errors.New("skip filter with unknown size"))\n', '			_ = errors.New("skip filter with unknown size")\n'))
m("fl-skip-seen", "C28", (F, "					result = data[n-seen:]\n					seen = n", "					result = data[n-seen:]"))
m("fl-ok-limit-remaining", "", (F, """			seen := 0
			receiver = func(_ int, data []T) (result []T) {
				if seen >= limit {
					return
				}
				l := len(data)
				if (seen + l) > limit {
					result = data[:limit-seen]
					seen = limit
				} else {
					result = data
					seen += l
				}
				if cancelWhenReached && (seen == limit) {
					pipeline.Cancel()
				}
				return
			}""", """			remaining := limit
			receiver = func(_ int, data []T) []T {
				if remaining == 0 {
					return nil
				}
				if len(data) > remaining {
					data = data[:remaining]
				}
				remaining -= len(data)
				if remaining == 0 && cancelWhenReached {
					pipeline.Cancel()
				}
				return data
			}"""))
m("fl-ok-skip-min", "", (F, """				if seen >= n {
					result = data
					return
				}
				l := len(data)
				if (seen + l) > n {
					result = data[n-seen:]
					seen = n
				} else {
					seen += l
				}
				return""", """				drop := min(n-seen, len(data))
				seen += drop
				return data[drop:]"""))
m("fl-ok-limit-helper", "", (F, "func Limit[T any](", """// take cuts data down to what is left of limit.
func take[T any](seen *int, limit int, data []T) []T {
	if *seen >= limit {
		return nil
	}
	if l := len(data); *seen+l > limit {
		data = data[:limit-*seen]
		*seen = limit
	} else {
		*seen += l
	}
	return data
}

func Limit[T any]("""), (F, """			receiver = func(_ int, data []T) (result []T) {
				if seen >= limit {
					return
				}
				l := len(data)
				if (seen + l) > limit {
					result = data[:limit-seen]
					seen = limit
				} else {
					result = data
					seen += l
				}
				if cancel""", """			receiver = func(_ int, data []T) (result []T) {
				if seen >= limit {
					return
				}
				result = take(&seen, limit, data)
				if cancel"""))
m("fl-every-flip", "C29", (F, "if atomic.LoadInt32(&res) == 0 {\n					*result = false", "if atomic.LoadInt32(&res) == 1 {\n					*result = false"))
m("fl-every-plain", "C29", (F, "				if !predicate(data) {\n					atomic.StoreInt32(&res, 0)", "				if !predicate(data) {\n					res = 0"))
m("fl-every-nofin", "C29", (F, "			finalizer = func() {\n				if atomic.LoadInt32(&res) == 0 {\n					*result = false\n				}\n			}\n		default:\n			receiver = func(_ int, data T) T {\n				if !pred", "			_ = func() {\n				if atomic.LoadInt32(&res) == 0 {\n					*result = false\n				}\n			}\n		default:\n			receiver = func(_ int, data T) T {\n				if !pred"))
m("fl-some-cancel-always", "C29", (F, "				if predicate(data) {\n					*result = true\n					if cancelWhenKnown {\n						pipeline.Cancel()\n					}\n				}", "				if predicate(data) {\n					*result = true\n				}\n				if cancelWhenKnown {\n						pipeline.Cancel()\n					}\n"))
m("fl-some-last", "C29", (F, "				if predicate(data) {\n					*result = true\n", "				*result = predicate(data)\n				if *result {\n"))
m("fl-notany-store1", "C29", (F, "				if predicate(data) {\n					atomic.StoreInt32(&res, 0)", "				if predicate(data) {\n					atomic.StoreInt32(&res, 1)"))
m("fl-notevery-init", "C29", (F, "	*result = false\n", "	*result = true\n", 0))
m("fl-every-ord", "C29", (F, "		switch kind {\n		case Parallel:\n			res := int32(1)", "		switch kind {\n		case Sequential:\n			res := int32(1)"))
m("fl-lpar-kind", "C29 C30", ("pipeline/lparnode.go", "ComposeFilters(p, Parallel,", "ComposeFilters(p, Sequential,"))
m("fl-ok-atomicbool", "", (F, "			res := int32(0)\n			receiver = func(_ int, data T) T {\n				if predicate(data) {\n					atomic.StoreInt32(&res, 1)", "			var res atomic.Bool\n			receiver = func(_ int, data T) T {\n				if predicate(data) {\n					res.Store(true)"), (F, "			finalizer = func() {\n				if atomic.LoadInt32(&res) == 1 {\n					*result = true\n				}\n			}\n		default:\n			receiver = func(_ int, data T) T {\n				if predicate", "			finalizer = func() {\n				if res.Load() {\n					*result = true\n				}\n			}\n		default:\n			receiver = func(_ int, data T) T {\n				if predicate"))
m("fl-ok-count-fails", "", (F, "			res := int32(1)\n			receiver = func(_ int, data T) T {\n				if !predicate(data) {\n					atomic.StoreInt32(&res, 0)", "			res := int32(0)\n			receiver = func(_ int, data T) T {\n				if !predicate(data) {\n					atomic.AddInt32(&res, 1)"), (F, "				if atomic.LoadInt32(&res) == 0 {\n					*result = false", "				if atomic.LoadInt32(&res) > 0 {\n					*result = false"))
m("fl-ok-mutex", "", (F, "			res := int32(1)\n			receiver = func(_ int, data T) T {\n				if !predicate(data) {\n					atomic.StoreInt32(&res, 0)\n					if", "			var mu sync.Mutex\n			receiver = func(_ int, data T) T {\n				if !predicate(data) {\n					mu.Lock()\n					*result = false\n					mu.Unlock()\n					if"), (F, "			finalizer = func() {\n				if atomic.LoadInt32(&res) == 0 {\n					*result = false\n				}\n			}\n", ""))
m("fl-append-nolock", "C30", (F, "					m.Lock()\n					defer m.Unlock()\n", "					_ = &m\n"))
m("fl-append-locallock", "C30", (F, "			var m sync.Mutex\n			receiver = func(_ int, data []T) []T {\n", "			receiver = func(_ int, data []T) []T {\n			var m sync.Mutex\n"))
m("fl-append-stale", "C30", (F, "					m.Lock()\n					defer m.Unlock()\n					*result = append(*result, data...)", "					old := *result\n					m.Lock()\n					defer m.Unlock()\n					*result = append(old, data...)"))
m("fl-append-first", "C30", (F, "				if data != nil {\n					*result", "				if data != nil && len(*result) == 0 {\n					*result"))
m("fl-count-batches", "C30", (F, "atomic.AddInt64(&res, int64(len(data)))", "atomic.AddInt64(&res, int64(cap(data)))"))
m("fl-count-noinit", "C30", (F, "			*result = 0\n", ""))
m("fl-count-size0", "C30", (F, "		case *size >= 0:", "		case *size >= -1:"))
m("fl-count-32", "C30", (F, "				*result = int(atomic.LoadInt64(&res))", "				*result = int(int32(atomic.LoadInt64(&res)))"))
m("fl-compose-nil", "C30", (FI, "		if finalizer != nil {", "		if finalizer != nil && receiver != nil {"))
m("fl-compose-prepend", "C30", (FI, "			receivers = append(receivers, receiver)", "			receivers = append([]Receiver[T]{receiver}, receivers...)"))
m("fl-compose-skip0", "C30", (FI, "	for _, filter := range filters {\n		receiver,", "	for _, filter := range filters[:max(len(filters)-1, 1)] {\n		receiver,"))
m("fl-finalize-drop", "C30", (F, "		receiver = receive\n		finalizer = finalize\n", "		receiver = receive\n		if receive == nil {\n			finalizer = finalize\n		}\n"))
m("fl-ok-compose-idx", "", (FI, "	for _, filter := range filters {\n		receiver,", "	for i := 0; i < len(filters); i++ {\n		filter := filters[i]\n		receiver,"))
m("fl-ok-append-unlock", "", (F, "					m.Lock()\n					defer m.Unlock()\n					*result = append(*result, data...)", "					m.Lock()\n					r := *result\n					r = append(r, data...)\n					*result = r\n					m.Unlock()"))
m("fl-ok-count-len", "", (F, "				*result += len(data)\n", "				n := len(data)\n				if n > 0 {\n					*result = n + *result\n				}\n"))

L = "pipeline/pipeline.go"
SETERR = """	p.mutex.Lock()
	if p.err == nil {
		p.err = err
		p.mutex.Unlock()
		if p.cancel != nil {
			p.cancel()
		}
		return true
	}
	p.mutex.Unlock()
	return false
"""
m("er-rlock", "C25", (L, "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n		if", "	p.mutex.RLock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.RUnlock()\n		if"), (L, "	p.mutex.Unlock()\n	return false", "	p.mutex.RUnlock()\n	return false"))
m("er-checkthenact", "C25", (L, SETERR, """	p.mutex.RLock()
	set := p.err == nil
	p.mutex.RUnlock()
	if set {
		p.mutex.Lock()
		p.err = err
		p.mutex.Unlock()
		if p.cancel != nil {
			p.cancel()
		}
	}
	return set
"""))
m("er-ok-defer", "", (L, SETERR, """	set := func() bool {
		p.mutex.Lock()
		defer p.mutex.Unlock()
		if p.err != nil {
			return false
		}
		p.err = err
		return true
	}()
	if set {
		if cancel := p.cancel; cancel != nil {
			cancel()
		}
	}
	return set
"""))
m("er-ok-helper", "", (L, SETERR, """	if !p.storeErr(err) {
		return false
	}
	if p.cancel != nil {
		p.Cancel()
	}
	return true
"""), (L, "// Context returns this", """func (p *pipelineState) storeErr(err error) (ok bool) {
	p.mutex.Lock()
	if ok = p.err == nil; ok {
		p.err = err
	}
	p.mutex.Unlock()
	return
}

// Context returns this"""), (L, """		p.mutex.Lock()
		if p.err == nil {
			p.err = err
		}
		p.mutex.Unlock()
""", "		p.storeErr(err)\n"))
m("er-ok-helper-locked", "", (L, SETERR, """	p.mutex.Lock()
	ok := p.setErrLocked(err)
	p.mutex.Unlock()
	if ok && p.cancel != nil {
		p.Cancel()
	}
	return ok
"""), (L, "// Context returns this", """func (p *pipelineState) setErrLocked(err error) bool {
	if p.err != nil {
		return false
	}
	p.err = err
	return true
}

// Context returns this"""))
m("er-helper-unlocked", "C25", (L, SETERR, """	ok := p.setErrLocked(err)
	if ok && p.cancel != nil {
		p.Cancel()
	}
	return ok
"""), (L, "// Context returns this", """func (p *pipelineState) setErrLocked(err error) bool {
	if p.err != nil {
		return false
	}
	p.err = err
	return true
}

// Context returns this"""))
m("er-last", "C25", (L, SETERR, SETERR.replace("	if p.err == nil {", "	if err != nil {")))
m("er-nocancel", "C25", (L, SETERR, SETERR.replace("		if p.cancel != nil {\n			p.cancel()\n		}\n", "")))
m("er-nonilcheck", "C25", (L, SETERR, SETERR.replace("		if p.cancel != nil {\n			p.cancel()\n		}\n", "		p.cancel()\n")))
m("er-cancelfirst", "C25", (L, SETERR, SETERR.replace("	p.mutex.Lock()\n	if p.err == nil {", "	if p.cancel != nil {\n		p.cancel()\n	}\n	p.mutex.Lock()\n	if p.err == nil {").replace("		p.mutex.Unlock()\n		if p.cancel != nil {\n			p.cancel()\n		}\n", "		p.mutex.Unlock()\n")))
m("er-cancel-locked", "C41", (L, SETERR, SETERR.replace("		p.mutex.Unlock()\n		if p.cancel != nil {\n			p.cancel()\n		}\n", "		if p.cancel != nil {\n			p.cancel()\n		}\n		p.mutex.Unlock()\n")))
m("er-cancel-always", "C25", (L, SETERR, SETERR.replace("	p.mutex.Unlock()\n	return false", "	p.mutex.Unlock()\n	if p.cancel != nil {\n		p.cancel()\n	}\n	return false")))
m("er-true", "C25", (L, SETERR, SETERR.replace("return false", "return true")))
m("er-get-nolock", "C25", (L, "	p.mutex.RLock()\n	err = p.err\n	p.mutex.RUnlock()\n	return err", "	return p.err"))
m("er-ok-get-defer", "", (L, "	p.mutex.RLock()\n	err = p.err\n	p.mutex.RUnlock()\n	return err", "	p.mutex.RLock()\n	defer p.mutex.RUnlock()\n	return p.err"))
m("er-get-noun", "C25", (L, "	p.mutex.RLock()\n	err = p.err\n	p.mutex.RUnlock()\n	return err", "	p.mutex.RLock()\n	if p.err != nil {\n		return p.err\n	}\n	p.mutex.RUnlock()\n	return nil"))
m("er-run-nolast", "C25", (L, """	if err := p.source.Err(); err != nil {
		p.mutex.Lock()
		if p.err == nil {
			p.err = err
		}
		p.mutex.Unlock()
	}
""", ""))
m("er-run-overwrite", "C25", (L, """		p.mutex.Lock()
		if p.err == nil {
			p.err = err
		}
		p.mutex.Unlock()
""", """		p.mutex.Lock()
		p.err = err
		p.mutex.Unlock()
"""))
m("er-ok-run-seterr", "", (L, """		p.mutex.Lock()
		if p.err == nil {
			p.err = err
		}
		p.mutex.Unlock()
""", """		p.SetErr(err)
"""))
m("er-run-loop", "C25", (L, """				if err := p.source.Err(); err != nil {
					p.SetErr(err)
					return
				} else if p.Err() != nil {
					return
				}
""", """				if p.Err() != nil {
					return
				}
"""))
m("er-run-loop-drop", "C25", (L, """				if err := p.source.Err(); err != nil {
					p.SetErr(err)
					return
				} else if""", """				if err := p.source.Err(); err != nil {
					return
				} else if""", 1))
m("er-run-late-cancel", "C25", (L, "	p.ctx, p.cancel = ctx, cancel\n", "	p.ctx = ctx\n"), (L, "	dataSize := p.source.Prepare(p.ctx)\n", "	p.cancel = cancel\n	dataSize := p.source.Prepare(p.ctx)\n"))
m("er-run-noguard", "C25", (L, "	if p.Err() != nil {\n		return\n	}\n	p.ctx, p.cancel", "	p.ctx, p.cancel"))
# --- C27: the fetch loop
VLOOP = "for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {"
KLOOP = "for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {"
FEED = "p.nodes[0].Feed(p, 0, seqNo, p.source.Data())"
BSZ = "batchSize := ((dataSize - 1) / p.NofBatches(0)) + 1\n			if batchSize == 0 {\n				batchSize = 1\n			}\n"
def ft(name, want, *e): m("ft-" + name, want, *e)
ft("seq1", "C27", (L, VLOOP, VLOOP.replace("0, p.batchInc", "1, p.batchInc")))
ft("seq2", "C27", (L, VLOOP, VLOOP.replace("seqNo+1", "seqNo+2")))
ft("seqk", "C27", (L, KLOOP, KLOOP.replace("seqNo++", "seqNo += 2")))
ft("start-max", "C27", (L, VLOOP, VLOOP.replace("0, p.batchInc", "0, p.maxBatchSize")))
ft("nogrow", "C27", (L, VLOOP, VLOOP.replace("p.nextBatchSize(batchSize)", "batchSize")))
ft("twice", "C27", (L, FEED, FEED + "\n				" + FEED))
ft("index", "C27", (L, FEED, FEED.replace("p, 0,", "p, 1,"), 1))
ft("node", "C27", (L, FEED, FEED.replace("nodes[0]", "nodes[len(p.nodes)-1]"), 1))
ft("ge", "C27", (L, KLOOP, KLOOP.replace("> 0", ">= 0")))
ft("gt1", "C27", (L, KLOOP, KLOOP.replace("> 0", "> 1")))
ft("min0", "C27", (L, BSZ, "batchSize := ((dataSize - 1) / p.NofBatches(0)) + 1\n"))
ft("floor", "C27", (L, BSZ, BSZ.replace("((dataSize - 1) / p.NofBatches(0)) + 1", "dataSize / p.NofBatches(0)")))
ft("floor1", "C27", (L, BSZ, BSZ.replace("((dataSize - 1) / p.NofBatches(0)) + 1", "dataSize / p.NofBatches(0) + 1")))
ft("filtered", "C27", (L, BSZ, BSZ.replace("dataSize", "filteredSize")))
ft("filtered2", "C27", (L, "		if dataSize < 0 {", "		if filteredSize < 0 {"))
ft("le0", "C27", (L, "		if dataSize < 0 {", "		if dataSize <= 0 {"))
ft("overflow", "C27", (L, "	if batchSize > p.maxBatchSize-p.batchInc {\n		return p.maxBatchSize\n	}\n	return batchSize + p.batchInc", "	result = batchSize + p.batchInc\n	if result > p.maxBatchSize {\n		result = p.maxBatchSize\n	}\n	return"))
ft("nocap", "C27", (L, "	if batchSize > p.maxBatchSize-p.batchInc {\n		return p.maxBatchSize\n	}\n", ""))
ft("cap-early", "C27", (L, "	if batchSize > p.maxBatchSize-p.batchInc {\n		return p.maxBatchSize\n	}\n", "	if batchSize > p.maxBatchSize-p.batchInc {\n		return batchSize\n	}\n"))
ft("double", "C27", (L, "	return batchSize + p.batchInc", "	return batchSize + batchSize"))
ft("swapdefault", "C27", (L, "p.batchInc = defaultBatchInc", "p.batchInc = defaultMaxBatchSize"))
ft("default", "C27", (L, "defaultBatchInc     = 512", "defaultBatchInc     = 0"))
ft("nofinal", "C27", (L, "			p.finalizeVariableBatchSize()\n", ""))
ft("nodefmax", "C27", (L, "	if p.maxBatchSize < 1 {\n		p.maxBatchSize = defaultMaxBatchSize\n	}\n", ""))
ft("noclamp", "C27", (L, "	if p.batchInc > p.maxBatchSize {\n		p.batchInc = p.maxBatchSize\n	}\n", ""))
ft("nof0", "C27", (L, "	if n < 1 {\n		nofBatches = p.nofBatches", "	if n < 0 {\n		nofBatches = p.nofBatches"))
ft("nofstore", "C27", (L, "		nofBatches = n\n		p.nofBatches = n\n", "		nofBatches = n\n"))
ft("nofneg", "C27", (L, "if nofBatches < 1 {\n			nofBatches = runtime.NumCPU()", "if nofBatches < 0 {\n			nofBatches = runtime.NumCPU()"))
ft("setswap", "C27", (L, "	p.batchInc = batchInc\n	p.maxBatchSize = maxBatchSize\n", "	p.batchInc = maxBatchSize\n	p.maxBatchSize = batchInc\n"))
ft("data-before", "C27", (L, FEED, "p.nodes[0].Feed(p, 0, seqNo, d)", 1), (L, KLOOP, "d := p.source.Data()\n			" + KLOOP))
ft("errskip", "C27", (L, "				" + FEED, "				if seqNo > 1000 {\n					continue\n				}\n				" + FEED, 1))
ft("stop-early", "C27", (L, "				if p.ctx.Err() != nil {\n					break\n				}", "				if p.ctx.Err() != nil || seqNo > 1<<20 {\n					break\n				}", 1))
ft("stop-const", "C27", (L, KLOOP, KLOOP.replace("; p.source", "; seqNo < p.NofBatches(0) && p.source")))
ft("ok-rotate", "", (L, KLOOP + "\n", "for seqNo := 0; ; seqNo++ {\n				if n := p.source.Fetch(batchSize); n <= 0 {\n					break\n				}\n"))
ft("ok-rotate1", "", (L, KLOOP + "\n", "for seqNo := 0; ; seqNo++ {\n				if n := p.source.Fetch(batchSize); n < 1 {\n					break\n				}\n"))
ft("ok-last", "", (L, KLOOP + "\n				" + FEED, "seqNo := -1\n			for p.source.Fetch(batchSize) > 0 {\n				seqNo++\n				" + FEED))
ft("ok-ceil", "", (L, BSZ, "batches := p.NofBatches(0)\n			batchSize := dataSize / batches\n			if dataSize%batches != 0 {\n				batchSize++\n			}\n			batchSize = max(batchSize, 1)\n"))
ft("ok-ceil1", "", (L, BSZ, BSZ.replace("batchSize == 0", "batchSize < 1")))
ft("ok-max", "", (L, BSZ, "batchSize := max(((dataSize - 1) / p.NofBatches(0)) + 1, 1)\n"))
ft("ok-min", "", (L, "	if batchSize > p.maxBatchSize-p.batchInc {\n		return p.maxBatchSize\n	}\n	return batchSize + p.batchInc", "	return batchSize + min(p.batchInc, p.maxBatchSize-batchSize)"))
ft("ok-inline", "", (L, VLOOP, "for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo++ {"), (L, "				if p.ctx.Err() != nil {\n					break\n				}", "				if p.ctx.Err() != nil {\n					break\n				}\n				if batchSize >= p.maxBatchSize-p.batchInc {\n					batchSize = p.maxBatchSize\n				} else {\n					batchSize += p.batchInc\n				}"))
BODY = """				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
				if err := p.source.Err(); err != nil {
					p.SetErr(err)
					return
				} else if p.Err() != nil {
					return
				}
				if p.ctx.Err() != nil {
					break
				}
"""
HELP = """func (p *Pipeline[T]) step(seqNo int) (failed, done bool) {
	p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
	if err := p.source.Err(); err != nil {
		p.SetErr(err)
		return true, true
	}
	if p.Err() != nil {
		return true, true
	}
	return false, p.ctx.Err() != nil
}

// Run initiates pipeline execution by calling
"""
CALL = """				if failed, done := p.step(seqNo); failed {
					return
				} else if done {
					break
				}
"""
ft("ok-helper", "", (L, BODY, CALL, "all"), (L, "// Run initiates pipeline execution by calling\n", HELP))
ft("ok-merged", "", (L, "			p.finalizeVariableBatchSize()\n			" + VLOOP + "\n" + BODY + "			}\n", "			p.finalizeVariableBatchSize()\n"),
   (L, "		} else {\n			batchSize := ", "			batchSize, next = p.batchInc, p.nextBatchSize\n		} else {\n			batchSize = "),
   (L, "		if dataSize < 0 {", "		var batchSize int\n		next := func(n int) int { return n }\n		if dataSize < 0 {"),
   (L, "			" + KLOOP + "\n" + BODY + "			}\n		}\n", "		}\n		for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, next(batchSize) {\n" + BODY + "		}\n"))
# --- C26: sources
SR = "pipeline/source.go"
def sr(name, want, *e): m("src-" + name, want, *e)
sr("slice-size", "C26", (SR, "		src.size -= n\n", ""))
sr("slice-off", "C26", (SR, "		src.value = src.value[n:]", "		src.value = src.value[n-1:]"))
sr("slice-gt", "", (SR, "	case n >= src.size:", "	case n > src.size:"))
sr("slice-all", "C26", (SR, "	case n >= src.size:", "	case n+1 >= src.size:"))
sr("slice-keep", "C26", (SR, "		src.value = nil\n		src.size = 0\n", "		src.value = nil\n"))
sr("slice-keep2", "C26", (SR, "		fetched = src.size\n		src.data = src.value\n		src.value = nil\n		src.size = 0\n", "		fetched = n\n		src.data = src.value\n		src.value = nil\n		src.size = 0\n"))
sr("slice-prep", "C26", (SR, "	return src.size\n", "	return cap(src.value)\n"))
sr("slice-cap", "C26", (SR, "size := len(value)", "size := cap(value)"))
sr("scan-share", "C26", (SR, "	var data []string\n", "	data := src.data[:0]\n"))
sr("scan-loop", "C26", (SR, "	for range n {\n		if src.Scan() {\n			data = append(data, src.Text())", "	for src.Scan() && len(data) < n {\n		if true {\n			data = append(data, src.Text())"))
sr("bytes-noclone", "C26", (SR, "slices.Clone(src.Bytes())", "src.Bytes()"), (SR, '	"slices"\n', ""))
sr("scan-skip", "C26", (SR, "			data = append(data, src.Text())", "			if s := src.Text(); s != \"\" {\n				data = append(data, s)\n			}"))
sr("scan-front", "C26", (SR, "data = append(data, src.Text())", "data = append([]string{src.Text()}, data...)"))
sr("scan-count", "C26", (SR, "	src.data = data\n	return len(data)", "	src.data = data\n	return n"))
sr("scan-nodata", "C26", (SR, "	src.data = data\n	return len(data)", "	if len(data) > 0 {\n		src.data = data\n	}\n	return len(data) - 1", 0))
sr("scan-more", "C26", (SR, "	for range n {", "	for range n + 1 {"))
sr("scan-zero", "C26", (SR, "	for range n {", "	for range n - 1 {"))
sr("func-err", "C26", (SR, "	f.data, fetched, f.err = f.fetch(size)", "	var err error\n	f.data, fetched, err = f.fetch(size)\n	if err != nil {\n		f.err = err\n	}"))
sr("func-size", "C26", (SR, "f.fetch(size)", "f.fetch(size + 1)"))
sr("func-prep", "C26", (SR, "	result := f.prepare(ctx)\n	f.prepare = nil\n	return result", "	f.prepare(ctx)\n	return -1"))
sr("chan-ok", "C26", (SR, "	case element, ok := <-src.channel:\n		if ok {\n			src.data = element\n			return 1\n		}", "	case element := <-src.channel:\n		src.data = element\n		return 1"))
sr("chan-zero", "C26", (SR, "			src.data = element\n			return 1", "			src.data = element\n			return 0"))
sr("chan-def", "C26", (SR, "	case <-src.ctx.Done():\n	}\n	var t T", "	case <-src.ctx.Done():\n	default:\n	}\n	var t T"))
sr("multi-shared", "C26", (SR, "	src.data = nil\n	for fetched < n", "	src.data = src.data[:0]\n	for fetched < n"))
sr("multi-nofresh", "C26", (SR, "	src.data = nil\n	for fetched < n", "	for fetched < n"))
sr("multi-closed", "C26", (SR, "			} else {\n				return\n			}", "			} else {\n				return 0\n			}"))
sr("multi-default", "C26", (SR, "		case <-src.ctx.Done():\n			src.data = nil\n			return 0\n", "		case <-src.ctx.Done():\n			src.data = nil\n			return 0\n		default:\n			return\n"))
sr("ok-multi-default", "", (SR, "		case <-src.ctx.Done():\n			src.data = nil\n			return 0\n", "		case <-src.ctx.Done():\n			return\n"))
sr("multi-count", "C26", (SR, "				src.data = append(src.data, element)\n				fetched++", "				fetched++\n				if fetched < n {\n					src.data = append(src.data, element)\n				}"))
sr("multi-ctx", "C26", (SR, "	src.ctx = ctx\n	return -1\n}\n\n// Fetch implements the method of the Source interface.\nfunc (src *MultiChan[T])", "	return -1\n}\n\n// Fetch implements the method of the Source interface.\nfunc (src *MultiChan[T])"))
sr("ok-slice-if", "", (SR, """	switch {
	case src.size == 0:
		src.data = nil
	case n >= src.size:
		fetched = src.size
		src.data = src.value
		src.value = nil
		src.size = 0
	default:
		fetched = n
		src.data = src.value[:n]
		src.value = src.value[n:]
		src.size -= n
	}
	return""", """	if src.size == 0 {
		src.data = nil
		return 0
	}
	fetched = min(n, src.size)
	src.data, src.value = src.value[:fetched:fetched], src.value[fetched:]
	src.size = len(src.value)
	return"""))
sr("ok-slice-nosize", "", (SR, "	size  int\n	data  []T", "	data  []T"), (SR, "	size := len(value)\n	return &Slice[T]{value: value, size: size}", "	return &Slice[T]{value: value}"),
   (SR, "	return src.size\n", "	return len(src.value)\n"), (SR, "src.size == 0", "len(src.value) == 0"), (SR, "n >= src.size:\n		fetched = src.size", "n >= len(src.value):\n		fetched = len(src.value)"), (SR, "		src.size = 0\n", ""), (SR, "		src.size -= n\n", ""))
sr("ok-scan-for", "", (SR, """	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}""", "	for len(data) < n && src.Scan() {\n		data = append(data, src.Text())\n	}"))
sr("ok-scan-make", "", (SR, "	var data []string\n", "	data := make([]string, 0, n)\n"))
sr("ok-scan-arr", "", (SR, """	var data []string
	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}
	src.data = data
	return len(data)""", """	data := make([]string, n)
	for fetched < n && src.Scan() {
		data[fetched] = src.Text()
		fetched++
	}
	src.data = data[:fetched]
	return fetched"""))
sr("scan-arr", "C26", (SR, """	var data []string
	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}
	src.data = data
	return len(data)""", """	data := make([]string, n)
	for fetched < n && src.Scan() {
		data[fetched] = src.Text()
		fetched++
	}
	src.data = data
	return fetched"""))
sr("ok-scan-flag", "", (SR, """	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}""", "	for ok := true; ok && len(data) < n; {\n		if ok = src.Scan(); ok {\n			data = append(data, src.Text())\n		}\n	}"))
sr("ok-scan-done", "", (SR, """	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}""", "	for done := false; !done && len(data) < n; {\n		if src.Scan() {\n			data = append(data, src.Text())\n		} else {\n			done = true\n		}\n	}"))
sr("scan-flag", "C26", (SR, """	for range n {
		if src.Scan() {
			data = append(data, src.Text())
		} else {
			break
		}
	}""", "	for ok := true; ok && len(data) < n; {\n		if ok = src.Scan(); ok {\n			data = append(data, src.Text())\n		}\n		ok = ok && len(data) != 7\n	}\n	if len(data) == 7 {\n		data = nil\n	}"))
sr("ok-multi-local", "", (SR, """	src.data = nil
	for fetched < n {
		select {
		case element, ok := <-src.channel:
			if ok {
				src.data = append(src.data, element)
				fetched++
			} else {
				return
			}
		case <-src.ctx.Done():
			src.data = nil
			return 0
		}
	}
	return""", """	var data []T
	defer func() { src.data = data }()
	for range n {
		element, ok := src.next()
		if !ok {
			break
		}
		data = append(data, element)
	}
	return len(data)"""), (SR, "// Prepare implements the method of the Source interface.\nfunc (src *MultiChan[T])", """func (src *MultiChan[T]) next() (element T, ok bool) {
	select {
	case element, ok = <-src.channel:
	case <-src.ctx.Done():
	}
	return
}

// Prepare implements the method of the Source interface.
func (src *MultiChan[T])"""))
sr("ok-chan-inv", "", (SR, """	case element, ok := <-src.channel:
		if ok {
			src.data = element
			return 1
		}
	case <-src.ctx.Done():
	}
	var t T
	src.data = t
	return 0""", """	case element, ok := <-src.channel:
		src.data = element
		if ok {
			fetched = 1
		}
	case <-src.ctx.Done():
		var zero T
		src.data = zero
	}
	return"""))
sr("ok-func", "", (SR, "	f.data, fetched, f.err = f.fetch(size)\n	return", "	data, n, err := f.fetch(size)\n	f.err = err\n	f.data = data\n	return n"))

# nodes
SQ, PN, LP, SN, TN, PL = ["pipeline/%s.go" % x for x in ("seqnode", "parnode", "lparnode", "strictordnode", "transformnode", "pipeline")]
FL = "pipeline/filter.go"
def nd(name, want, *e):
    m("node-" + name, want, *e)
nd("ord-stash-key", "C19", (SQ, "stash[batch.seqNo] = batch.data", "stash[batch.seqNo+1] = batch.data"))
nd("ord-drop-early", "C19", (SQ, "							stash[batch.seqNo] = batch.data\n", ""))
nd("ord-run-late", "C20", (SQ, "									run++\n									data, ok := stash[run]", "									data, ok := stash[run]\n									run++"))
nd("ord-feed-early", "C20", (SQ, "stash[batch.seqNo] = batch.data", "feed(p, node.receivers, batch.index, batch.seqNo, batch.data)"))
nd("ord-no-check", "C20", (SQ, """						checkStash:
							for {""", """							if len(stash) == 0 {
								run++
								continue
							}
						checkStash:
							for {"""), )
nd("ord-check-once", "C20", (SQ, """									delete(stash, run)
									feed(p, node.receivers, batch.index, run, data)
""", """								delete(stash, run)
								feed(p, node.receivers, batch.index, run, data)
								run++
								break checkStash
"""))
nd("ord-wrong-seq", "C19", (SQ, "feed(p, node.receivers, batch.index, run, data)", "feed(p, node.receivers, batch.index, batch.seqNo, data)"))
nd("ord-delete-miss", "", (SQ, "								delete(stash, run)\n", ""))
nd("ord-two-workers", "C21", (SQ, """		node.waitGroup.Add(1)
		switch node.kind {
		case Sequential:
			go func() {""", """		node.waitGroup.Add(1)
		switch node.kind {
		case Sequential:
			if *dataSize > 4096 {
				node.waitGroup.Add(1)
				go func() {
					defer node.waitGroup.Done()
					for {
						select {
						case <-p.ctx.Done():
							return
						case batch, ok := <-node.channel:
							if !ok {
								return
							}
							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
						}
					}
				}()
			}
			go func() {"""))
nd("seq-inline-feed", "C21", (SQ, """	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	}
}""", """	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	default:
	}
	if node.kind == Sequential {
		feed(p, node.receivers, index, seqNo, data)
		return
	}
	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	}
}"""))
nd("seq-noctx-send", "C23", (SQ, """	select {
	case <-p.ctx.Done():
		return
	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	}
}""", "	node.channel <- dataBatch[T]{index, seqNo, data}\n}"))
nd("seq-noctx-recv", "C23", (SQ, """				for {
					select {
					case <-p.ctx.Done():
						return
					case batch, ok := <-node.channel:
						if !ok {
							return
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
					}
				}""", """				for batch := range node.channel {
					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
				}"""))
nd("seq-default-drop", "C19", (SQ, """	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	}""", """	case node.channel <- dataBatch[T]{index, seqNo, data}:
		return
	default:
		if len(node.receivers) == 0 {
			return
		}
		node.channel <- dataBatch[T]{index, seqNo, data}
	}"""))
nd("hoist-receivers", "C19", (SQ, """			go func() {
				defer node.waitGroup.Done()
				for {""", """			receivers := node.receivers
			go func() {
				defer node.waitGroup.Done()
				for {"""), (SQ, "						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n					}", "						feed(p, receivers, batch.index, batch.seqNo, batch.data)\n					}"))
nd("hoist-receivers2", "C19", (LP, "		for range node.limit {\n", "		receivers := node.receivers\n		for range node.limit {\n"), (LP, "feed(p, node.receivers", "feed(p, receivers"))
nd("feed-reuse", "C19", (FL, "	for _, receive := range receivers {\n		data = receive(seqNo, data)\n	}", "	for _, receive := range receivers {\n		receive(seqNo, data)\n	}"))
nd("feed-noforward", "C19", (FL, "	p.FeedForward(index, seqNo, data)", "	if seqNo >= 0 && len(receivers) > 0 {\n		p.FeedForward(index, seqNo, data)\n	}"))
nd("par-drop-done", "C22", (PN, "		defer node.waitGroup.Done()\n		select {\n		case <-p.ctx.Done():\n			return\n		default:\n", "		select {\n		case <-p.ctx.Done():\n			return\n		default:\n			defer node.waitGroup.Done()\n"))
nd("par-add-inside", "C22", (PN, "	node.waitGroup.Add(1)\n	go func() {\n", "	go func() {\n		node.waitGroup.Add(1)\n"))
nd("lp-add-less", "C22", (LP, "node.waitGroup.Add(node.limit)", "node.waitGroup.Add(node.limit - 1)"))
nd("lp-more", "C33", (LP, "		node.waitGroup.Add(node.limit)\n		for range node.limit {", "		node.waitGroup.Add(node.limit + 1)\n		for range node.limit + 1 {"))
nd("lp-limit1", "C33", (LP, "limit: runtime.NumCPU()", "limit: runtime.NumCPU() - 1"))
nd("lp-run-after", "C33", (LP, """							node.run++
							node.cond.L.Unlock()
							node.cond.Broadcast()
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)""", """							node.cond.L.Unlock()
							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
							node.cond.L.Lock()
							node.run++
							node.cond.L.Unlock()
							node.cond.Broadcast()
							continue
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)"""))
nd("lp-signal", "C24", (LP, "							node.cond.L.Unlock()\n							node.cond.Broadcast()", "							node.cond.L.Unlock()\n							node.cond.Signal()"))
nd("lp-cancel-signal", "C23", (LP, "node.cond.L.Lock()\n							node.cond.Broadcast()", "node.cond.L.Lock()\n							node.cond.Signal()"))
nd("lp-cancel-nolock", "C23", (LP, "							node.cond.L.Lock()\n							node.cond.Broadcast()\n							node.cond.L.Unlock()\n", "							node.cond.Broadcast()\n"))
nd("lp-feed-noturn", "C20", (LP, """			if node.run == seqNo {
				select {""", """			if node.run == seqNo || node.run < 0 {
				select {"""))
nd("lp-feed-unlock", "C20", (LP, """			if node.run == seqNo {
				select {
				case <-p.ctx.Done():
					return
				case node.channel <- dataBatch[T]{index, seqNo, data}:
					return
				}
			}""", """			if node.run == seqNo {
				node.cond.L.Unlock()
				select {
				case <-p.ctx.Done():
				case node.channel <- dataBatch[T]{index, seqNo, data}:
				}
				node.cond.L.Lock()
				return
			}"""))
nd("lp-feed-if", "C24", (LP, """		for {
			if node.run == seqNo {
				select {
				case <-p.ctx.Done():
					return
				case node.channel <- dataBatch[T]{index, seqNo, data}:
					return
				}
			}
			select {
			case <-p.ctx.Done():
				return
			default:
				node.cond.Wait()
			}
		}
	}""", """		if node.run != seqNo {
			select {
			case <-p.ctx.Done():
				return
			default:
				node.cond.Wait()
			}
		}
		select {
		case <-p.ctx.Done():
			return
		case node.channel <- dataBatch[T]{index, seqNo, data}:
			return
		}
	}""") )
M[-1]["want"] = "C20"
nd("so-noctx-wait", "C23", (SN, """		select {
		case <-p.ctx.Done():
			return
		default:
			node.cond.Wait()
		}
	}
}""", """		if node.run != seqNo {
			node.cond.Wait()
		}
	}
}"""))
nd("so-run-nolock", "C24", (SN, """					node.run++
					node.cond.L.Unlock()
					node.cond.Broadcast()""", """					node.cond.L.Unlock()
					node.run++
					node.cond.Broadcast()"""))
nd("so-bcast-first", "", (SN, """					node.run++
					node.cond.L.Unlock()
					node.cond.Broadcast()""", """					node.run++
					node.cond.Broadcast()
					node.cond.L.Unlock()"""))
nd("so-bcast-late", "C24", (SN, """					node.cond.L.Unlock()
					node.cond.Broadcast()
					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)""", """					node.cond.L.Unlock()
					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
					if len(node.receivers) > 0 {
						node.cond.Broadcast()
					}"""))
nd("so-no-unlock", "C24", (SN, """	defer node.cond.L.Unlock()
	for {
		if node.run == seqNo {
			select {
			case <-p.ctx.Done():
				return
			case""", """	for {
		if node.run == seqNo {
			select {
			case <-p.ctx.Done():
				node.cond.L.Unlock()
				return
			case""" ), (SN, """index, seqNo, data}:
				return
			}
		}
		select {
		case <-p.ctx.Done():
			return
""", """index, seqNo, data}:
				node.cond.L.Unlock()
				return
			}
		}
		select {
		case <-p.ctx.Done():
			return
"""))
nd("keep-norecv", "C31", (SQ, "keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0)", "keep = len(node.receivers) > 0"))
nd("keep-norecv2", "C31", (PN, "keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0)", "keep = len(node.receivers) > 0"))
nd("worker-skip-first", "C19", (SQ, """						if !ok {
							return
						}
						feed(""", """						if !ok {
							return
						}
						if batch.seqNo < 0 {
							continue
						}
						feed("""))
nd("ctx-after-recv", "", (SN, """					if !ok {
						return
					}
""", """					if !ok {
						return
					}
					if p.ctx.Err() != nil {
						node.cond.L.Lock()
						node.cond.Broadcast()
						node.cond.L.Unlock()
						return
					}
"""))
nd("ok-wggo", "", (PN, """	node.waitGroup.Add(1)
	go func() {
		defer node.waitGroup.Done()
		select {""", """	node.waitGroup.Go(func() {
		select {"""), (PN, """			feed(p, node.receivers, index, seqNo, data)
		}
	}()""", """			feed(p, node.receivers, index, seqNo, data)
		}
	})"""))
nd("ok-par-err", "", (PN, """		select {
		case <-p.ctx.Done():
			return
		default:
			feed(p, node.receivers, index, seqNo, data)
		}
""", """		if p.ctx.Err() == nil {
			feed(p, node.receivers, index, seqNo, data)
		}
"""))
nd("ok-work-method", "", (SQ, """			go func() {
				defer node.waitGroup.Done()
				for {
					select {
					case <-p.ctx.Done():
						return
					case batch, ok := <-node.channel:
						if !ok {
							return
						}
						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
					}
				}
			}()""", "			go node.runSequential(p)"), (SQ, "func (node *seqnode[T]) StrictOrd()", """func (node *seqnode[T]) runSequential(p *Pipeline[T]) {
	defer node.waitGroup.Done()
	for {
		batch, ok := node.receive(p)
		if !ok {
			return
		}
		feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
	}
}

func (node *seqnode[T]) receive(p *Pipeline[T]) (batch dataBatch[T], ok bool) {
	select {
	case <-p.ctx.Done():
	case batch, ok = <-node.channel:
	}
	return
}

func (node *seqnode[T]) StrictOrd()"""))
nd("ok-ord-loop", "", (SQ, """							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
						checkStash:
							for {
								select {
								case <-p.ctx.Done():
									return
								default:
									run++
									data, ok := stash[run]
									if !ok {
										break checkStash
									}
									delete(stash, run)
									feed(p, node.receivers, batch.index, run, data)
								}
							}
""", """							data, ok := batch.data, true
							for ok {
								feed(p, node.receivers, batch.index, run, data)
								run++
								if p.ctx.Err() != nil {
									return
								}
								if data, ok = stash[run]; ok {
									delete(stash, run)
								}
							}
"""))
nd("ok-ord-stash-all", "", (SQ, """						switch {
						case !ok:
							return
						case batch.seqNo < run:
							panic("Invalid receive order in an ordered pipeline node.")
						case batch.seqNo > run:
							stash[batch.seqNo] = batch.data
						default:
							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
						checkStash:
							for {
								select {
								case <-p.ctx.Done():
									return
								default:
									run++
									data, ok := stash[run]
									if !ok {
										break checkStash
									}
									delete(stash, run)
									feed(p, node.receivers, batch.index, run, data)
								}
							}
						}""", """						if !ok {
							return
						}
						if batch.seqNo != run {
							if batch.seqNo < run {
								panic("Invalid receive order in an ordered pipeline node.")
							}
							stash[batch.seqNo] = batch.data
							continue
						}
						next, present := batch.data, true
						for present {
							feed(p, node.receivers, batch.index, run, next)
							run++
							next, present = stash[run]
							delete(stash, run)
						}"""))
nd("ok-so-helper", "", (SN, """		if node.run == seqNo {
			select {
			case <-p.ctx.Done():
				return
			case node.channel <- dataBatch[T]{index, seqNo, data}:
				return
			}
		}
		select {
		case <-p.ctx.Done():
			return
		default:
			node.cond.Wait()
		}
	}
}""", """		if node.run != seqNo {
			if p.ctx.Err() != nil {
				return
			}
			node.cond.Wait()
			continue
		}
		node.send(p, dataBatch[T]{index, seqNo, data})
		return
	}
}

func (node *strictordnode[T]) send(p *Pipeline[T], batch dataBatch[T]) {
	select {
	case <-p.ctx.Done():
	case node.channel <- batch:
	}
}"""))
nd("ok-lp-waitloop", "", (LP, """		for {
			if node.run == seqNo {
				select {
				case <-p.ctx.Done():
					return
				case node.channel <- dataBatch[T]{index, seqNo, data}:
					return
				}
			}
			select {
			case <-p.ctx.Done():
				return
			default:
				node.cond.Wait()
			}
		}
	}""", """		for node.run != seqNo {
			if p.ctx.Err() != nil {
				return
			}
			node.cond.Wait()
		}
	}"""))
nd("ok-lp-unlockdefer", "", (LP, """							node.cond.L.Lock()
							if batch.seqNo != node.run {
								panic("Invalid receive order in an ordered limited parallel pipeline node.")
							}
							node.run++
							node.cond.L.Unlock()
							node.cond.Broadcast()
""", """							node.accept(batch.seqNo)
"""), (LP, "func (node *lparnode[T]) StrictOrd()", """func (node *lparnode[T]) accept(seqNo int) {
	node.cond.L.Lock()
	defer node.cond.L.Unlock()
	if seqNo != node.run {
		panic("Invalid receive order in an ordered limited parallel pipeline node.")
	}
	node.run++
	node.cond.Broadcast()
}

func (node *lparnode[T]) StrictOrd()"""))
nd("ok-lp-nopanic", "", (LP, """							if batch.seqNo != node.run {
								panic("Invalid receive order in an ordered limited parallel pipeline node.")
							}
							node.run++
""", """							node.run++
"""))
nd("ok-lp-for", "", (LP, "		node.waitGroup.Add(node.limit)\n		for range node.limit {\n", "		for i := node.limit; i > 0; i-- {\n			node.waitGroup.Add(1)\n"))
nd("ok-names", "", (SQ, "dataBatch[T]{index, seqNo, data}", "dataBatch[T]{data: data, seqNo: seqNo, index: index}"))

# ---- ends, merging, transforms
def e2(name, want, *e):
    m("pipe2-" + name, want, *e)
END = """	close(node.channel)
	node.waitGroup.Wait()
	for _, finalize := range node.finalizers {
		finalize()
	}
"""
for nm, F in (("sq", SQ), ("lp", LP), ("sn", SN)):
    e2("end-noclose-" + nm, "C22", (F, "	close(node.channel)\n", ""))
    e2("end-nowait-" + nm, "C22", (F, "	close(node.channel)\n	node.waitGroup.Wait()\n", "	close(node.channel)\n"))
    e2("end-early-fin-" + nm, "C22", (F, END, """	close(node.channel)
	for _, finalize := range node.finalizers {
		finalize()
	}
	node.waitGroup.Wait()
"""))
    e2("end-close-late-" + nm, "C22", (F, END, """	node.waitGroup.Wait()
	close(node.channel)
	for _, finalize := range node.finalizers {
		finalize()
	}
"""))
e2("end-pn-nowait", "C22", (PN, "	node.waitGroup.Wait()\n", ""))
e2("end-pn-skip-first", "C22", (PN, "range node.finalizers {", "range node.finalizers[min(1, len(node.finalizers)):] {"))
e2("end-rev", "C22", (PN, "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	for i := len(node.finalizers) - 1; i >= 0; i-- {\n		node.finalizers[i]()\n	}\n"))
e2("end-go", "C22", (PN, "		finalize()\n", "		go finalize()\n"))
e2("end-only-recv", "C22", (SQ, "	close(node.channel)\n	node.waitGroup.Wait()\n", "	if len(node.receivers) > 0 {\n		close(node.channel)\n		node.waitGroup.Wait()\n	}\n"))
e2("end-drop-late", "C22", (PN, "	node.waitGroup.Wait()\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n	node.receivers = nil\n	node.finalizers = nil\n", "	node.waitGroup.Wait()\n	node.receivers = nil\n	node.finalizers = nil\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n"))
e2("tn-end-skip", "C22", (TN, "range node.next.nodes {\n		node.End()", "range node.next.nodes[1:] {\n		node.End()"))
e2("tn-end-none", "C22", (TN, "	for _, node := range node.next.nodes {\n		node.End()\n	}\n", ""))
RUNEND = "	for _, node := range p.nodes {\n		node.End()\n	}\n"
e2("run-end-ctx", "C22 C23", (PL, RUNEND, "	if p.ctx.Err() != nil {\n		return\n	}\n" + RUNEND))
e2("run-end-rev", "C22", (PL, RUNEND, "	for i := len(p.nodes) - 1; i >= 0; i-- {\n		p.nodes[i].End()\n	}\n"))
e2("run-end-twice", "C22", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "				if p.ctx.Err() != nil {\n					p.nodes[0].End()\n					break\n				}\n"))
e2("run-break-return", "C22 C23", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "				if p.ctx.Err() != nil {\n					return\n				}\n"))
e2("run-break-return2", "C22 C23", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "				if p.ctx.Err() != nil {\n					return\n				}\n", 1))
e2("run-noctx", "C23", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", ""))
e2("run-noctx2", "C23", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "", 1))
e2("run-ctx-every2", "C23", (PL, "				if p.ctx.Err() != nil {\n", "				if seqNo%2 == 0 && p.ctx.Err() != nil {\n"))
e2("run-ctx-continue", "C23", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "				if p.ctx.Err() != nil {\n					continue\n				}\n"))
e2("ff-same", "C19", (PL, "if index++; index < len(p.nodes) {", "if index < len(p.nodes) {"))
e2("ff-last", "C19", (PL, "if index++; index < len(p.nodes) {", "if index++; index < len(p.nodes)-1 {"))
e2("ff-index", "C19", (PL, "p.nodes[index].Feed(p, index, seqNo, data)", "p.nodes[index].Feed(p, index-1, seqNo, data)"))
e2("ff-ctx", "C19", (PL, "if index++; index < len(p.nodes) {", "if index++; index < len(p.nodes) && seqNo >= 0 {"))
e2("ff-twice", "C19", (PL, "p.nodes[index].Feed(p, index, seqNo, data)", "p.nodes[index].Feed(p, index, seqNo, data)\n		if index == 1 {\n			p.nodes[index].Feed(p, index, seqNo, data)\n		}"))
PRO = """				switch node := p.nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
"""
e2("pro-nolp", "C20 C24", (PL, "				case *lparnode[T]:\n					node.makeOrdered()\n", ""))
e2("pro-nosq", "C20 C24", (PL, "				case *seqnode[T]:\n					node.kind = Ordered\n", ""))
e2("pro-flagonly", "C24", (LP, "	node.cond = sync.NewCond(&sync.Mutex{})\n", ""))
e2("pro-condonly", "C20 C24", (LP, "	node.ordered = true\n", ""))
e2("pro-start", "C24", (PL, "for index = index - 1; index >= 0; index-- {", "for index = index - 2; index >= 0; index-- {"))
e2("pro-end", "C24", (PL, "for index = index - 1; index >= 0; index-- {", "for index = index - 1; index > 0; index-- {"))
e2("pro-first", "C24", (PL, "	for index := len(p.nodes) - 1; index >= 0; index-- {", "	for index := 0; index < len(p.nodes); index++ {"))
e2("pro-skip-last", "C24", (PL, "	for index := len(p.nodes) - 1; index >= 0; index-- {", "	for index := len(p.nodes) - 2; index >= 0; index-- {"))
e2("pro-tn-false", "C24", (TN, "			return true\n		}\n	}\n	return false", "			return false\n		}\n	}\n	return false"))
e2("pro-tn-none", "C24", (TN, "			for index = index - 1; index >= 0; index-- {\n				switch node := node.next.nodes[index].(type) {\n				case *seqnode[T]:\n					node.kind = Ordered\n				case *lparnode[T]:\n					node.makeOrdered()\n				}\n			}\n", ""))
e2("pro-tn-last", "C24", (TN, "for index := len(node.next.nodes) - 1; index >= 0; index-- {", "for index := len(node.next.nodes) - 1; index > 0; index-- {"))
e2("pro-sn-false", "C24", (SN, "	return true\n}\n\n// Implements the Feed", "	return len(node.filters) > 0\n}\n\n// Implements the Feed"))
BEG = """	for index := 0; index < len(p.nodes); {
		if p.nodes[index].Begin(p, index, &filteredSize) {
			index++
		} else {
			p.nodes = slices.Delete(p.nodes, index, index+1)
		}
	}
"""
MRG = """		for index := 0; index < len(p.nodes)-1; {
			if p.nodes[index].TryMerge(p.nodes[index+1]) {
				p.nodes = slices.Delete(p.nodes, index+1, index+2)
			} else {
				index++
			}
		}
"""
e2("beg-always-inc", "C31", (PL, BEG, """	for index := 0; index < len(p.nodes); index++ {
		if !p.nodes[index].Begin(p, index, &filteredSize) {
			p.nodes = slices.Delete(p.nodes, index, index+1)
		}
	}
"""))
e2("beg-keep-all", "C31", (PL, BEG, """	for index := 0; index < len(p.nodes); index++ {
		p.nodes[index].Begin(p, index, &filteredSize)
	}
"""))
e2("beg-stop-first", "C31", (PL, "			p.nodes = slices.Delete(p.nodes, index, index+1)\n", "			p.nodes = p.nodes[:index]\n"))
e2("beg-wrong-size", "C27", (PL, "Begin(p, index, &filteredSize)", "Begin(p, index, &dataSize)"), (PL, "	filteredSize := dataSize\n", ""))
e2("beg-from1", "C31", (PL, "	for index := 0; index < len(p.nodes); {", "	for index := min(1, len(p.nodes)); index < len(p.nodes); {"))
e2("mrg-delete-first", "C31", (PL, "slices.Delete(p.nodes, index+1, index+2)", "slices.Delete(p.nodes, index, index+1)"))
e2("mrg-delete-more", "C31", (PL, "slices.Delete(p.nodes, index+1, index+2)", "slices.Delete(p.nodes, index+1, min(index+3, len(p.nodes)))"))
e2("mrg-nodelete", "C31", (PL, "				p.nodes = slices.Delete(p.nodes, index+1, index+2)\n", "				index++\n"))
e2("mrg-skip", "C31", (PL, "p.nodes[index].TryMerge(p.nodes[index+1])", "p.nodes[0].TryMerge(p.nodes[index+1])"))
e2("mrg-delete-unmerged", "C31", (PL, "p.nodes[index].TryMerge(p.nodes[index+1])", "p.nodes[index].TryMerge(p.nodes[index+1]) || p.nodes[index] == p.nodes[index+1]"))
e2("tm-order", "C31", (PN, "node.filters = append(node.filters, nxt.filters...)", "node.filters = append(nxt.filters, node.filters...)"))
e2("tm-norecv", "C31", (PN, "		node.receivers = append(node.receivers, nxt.receivers...)\n", ""))
e2("tm-nofin", "C31", (LP, "		node.finalizers = append(node.finalizers, nxt.finalizers...)\n", ""))
e2("tm-nofilt", "C31", (SN, "		node.filters = append(node.filters, nxt.filters...)\n", "", 1))
e2("tm-kind", "C31", (SQ, "		if nxt.kind == Ordered {\n			node.kind = Ordered\n		}\n", ""))
e2("tm-kind2", "C31", (SQ, "		if nxt.kind == Ordered {\n			node.kind = Ordered\n		}\n", "		node.kind = nxt.kind\n"))
e2("tm-begun", "C31", (SQ, "merge && (len(nxt.filters) > 0)", "merge"))
e2("tm-false", "C31", (PN, "		return true\n	}\n	return false", "	}\n	return false"))
e2("tm-lp-par", "C31", (PN, "	return false\n}\n\n// Implements the Begin", "	if nxt, merge := next.(*lparnode[T]); merge {\n		node.filters = append(node.filters, nxt.filters...)\n		node.receivers = append(node.receivers, nxt.receivers...)\n		node.finalizers = append(node.finalizers, nxt.finalizers...)\n		return true\n	}\n	return false\n}\n\n// Implements the Begin"))
e2("tm-sn-par", "C31", (SN, "	case *strictordnode[T]:", "	case *parnode[T]:\n		node.filters = append(node.filters, nxt.filters...)\n		node.receivers = append(node.receivers, nxt.receivers...)\n		node.finalizers = append(node.finalizers, nxt.finalizers...)\n		return true\n	case *strictordnode[T]:"))
e2("tm-seq-sn", "C31", (SQ, "	return false\n}\n\n// Implements the Begin", "	if nxt, merge := next.(*strictordnode[T]); merge && len(nxt.filters) > 0 {\n		node.kind = Ordered\n		node.filters = append(node.filters, nxt.filters...)\n		node.receivers = append(node.receivers, nxt.receivers...)\n		node.finalizers = append(node.finalizers, nxt.finalizers...)\n		return true\n	}\n	return false\n}\n\n// Implements the Begin"))
e2("tm-recv-fin", "C31", (SN, "		node.receivers = append(node.receivers, nxt.receivers...)\n", "		node.receivers = append(nxt.receivers, node.receivers...)\n"))
e2("add-two", "C31", (PL, "for _, node := range nodes {\n		if l", "for i, node := range nodes {\n		if i > 0 && node == nodes[i-1] {\n			continue\n		}\n		if l"))
e2("add-prepend", "C31", (PL, "p.nodes = append(p.nodes, node)", "p.nodes = append([]Node[T]{node}, p.nodes...)"))
e2("add-first", "C31", (PL, "!p.nodes[l-1].TryMerge(node)", "!p.nodes[0].TryMerge(node)"))
e2("add-both", "C31", (PL, "(l == 0) || !p.nodes[l-1].TryMerge(node)", "(l == 0) || p.nodes[l-1].TryMerge(node)"))
e2("begin-keep", "C31", (PN, "keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0)", "keep = len(node.receivers) > 0"))
e2("begin-keep-sn", "C31", (SN, "keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep", "keep = (len(node.receivers) > 0) && (len(node.finalizers) > 0); keep"))
e2("tn-begin-keepempty", "C31 C32", (TN, "	if len(node.next.nodes) == 0 {\n		return false\n	}\n", "	if len(node.next.nodes) < 2 {\n		return false\n	}\n"))
e2("tn-begin-del", "C31 C32", (TN, "slices.Delete(node.next.nodes, index, index+1)", "node.next.nodes[:index]"))
e2("tn-begin-mrg", "C31 C32", (TN, "slices.Delete(node.next.nodes, index+1, index+2)", "slices.Delete(node.next.nodes, index, index+1)"))
e2("tn-begin-size", "C31 C32", (TN, "Begin(node.next, index, dataSize)", "Begin(node.next, index, new(int))"))
e2("tn-begin-nobegin", "C32", (TN, "	for index := 0; index < len(node.next.nodes); {\n", "	for index := 1; index < len(node.next.nodes); {\n"))
e2("tn-feed-seq", "C32", (TN, "FeedForward(-1, seqNo, node.transform(seqNo, data))", "FeedForward(-1, seqNo+1, node.transform(seqNo, data))"))
e2("tn-feed-seq2", "C32", (TN, "node.transform(seqNo, data))", "node.transform(seqNo+1, data))"))
e2("tn-feed-idx", "C32", (TN, "FeedForward(-1,", "FeedForward(0,"))
e2("tn-feed-twice", "C32", (TN, "	node.next.FeedForward(-1, seqNo, node.transform(seqNo, data))", "	res := node.transform(seqNo, data)\n	if seqNo == 0 {\n		res = node.transform(seqNo, data)\n	}\n	node.next.FeedForward(-1, seqNo, res)"))
e2("tn-feed-drop", "C32", (TN, "	node.next.FeedForward(-1, seqNo, node.transform(seqNo, data))", "	res := node.transform(seqNo, data)\n	if node.next.Err() == nil {\n		node.next.FeedForward(-1, seqNo, res)\n	}"))
e2("tn-state", "C32", (TN, "		pipelineState: p.pipelineState,", "		pipelineState: new(pipelineState),", 3))
e2("tn-kind-par", "C32", (TN, "		Par(Receive(", "		LimitedPar(Receive("))
e2("tn-kind-seq", "C32", (TN, "		Ord(Receive(", "		Seq(Receive("))
e2("tn-noadd", "C32", (TN, "		Ord(Receive(func(_ int, data S) S {\n			return data\n		})),\n", ""))
e2("tn-norecv", "C32", (TN, "		Seq(Receive(func(_ int, data S) S {\n			return data\n		})),\n", "		Seq[S](),\n"))
e2("tn-order", "C32", (TN, "		LimitedPar(Receive(func(_ int, data S) S {\n			return data\n		})),\n		&transformNode[S, T]{\n			next:      next,\n			transform: transform,\n		})", "		&transformNode[S, T]{\n			next:      next,\n			transform: transform,\n		},\n		LimitedPar(Receive(func(_ int, data S) S {\n			return data\n		})))"))
e2("tn-src", "C32", (TN, "	p.Add(&transformNode[S, T]{\n		next:      next,\n		transform: transform,\n	})\n	return next", "	p.Add(&transformNode[S, T]{\n		next:      &Pipeline[T]{pipelineState: p.pipelineState},\n		transform: transform,\n	})\n	return next"))
e2("src-send", "C23", ("pipeline/source.go", "case <-src.ctx.Done():", "case <-context.Background().Done():"))
e2("race-run", "C21", (LP, "							node.cond.L.Lock()\n							if batch.seqNo != node.run {\n								panic(\"Invalid receive order in an ordered limited parallel pipeline node.\")\n							}\n							node.run++\n							node.cond.L.Unlock()\n", "							if batch.seqNo != node.run {\n								panic(\"Invalid receive order in an ordered limited parallel pipeline node.\")\n							}\n							node.cond.L.Lock()\n							node.run++\n							node.cond.L.Unlock()\n"))
e2("race-feed", "C21", (SN, "	node.cond.L.Lock()\n	defer node.cond.L.Unlock()\n	for {\n		if node.run == seqNo {", "	for node.run < seqNo-1000 {\n	}\n	node.cond.L.Lock()\n	defer node.cond.L.Unlock()\n	for {\n		if node.run == seqNo {"))
e2("race-begin", "C21", (SN, "		node.channel = make(chan dataBatch[T])\n		node.waitGroup.Add(1)\n", "		node.waitGroup.Add(1)\n"), (SN, "		}()\n	}\n	return\n", "		}()\n		node.channel = make(chan dataBatch[T])\n	}\n	return\n"))

# refactorings
PROM = """	for index := len(p.nodes) - 1; index >= 0; index-- {
		if p.nodes[index].StrictOrd() {
			for index = index - 1; index >= 0; index-- {
				switch node := p.nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
			}
			break
		}
	}
"""
TPROM = """	for index := len(node.next.nodes) - 1; index >= 0; index-- {
		if node.next.nodes[index].StrictOrd() {
			for index = index - 1; index >= 0; index-- {
				switch node := node.next.nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
			}
			return true
		}
	}
	return false
"""
PHELP = """// promote switches nodes before a strictly ordered one.
func promote[T any](nodes []Node[T]) bool {
	for index := len(nodes) - 1; index >= 0; index-- {
		if nodes[index].StrictOrd() {
			for index = index - 1; index >= 0; index-- {
				switch node := nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
			}
			return true
		}
	}
	return false
}

"""
DEFR = "func (p *Pipeline[T]) defaultRunWithContext("
e2("ok-promote", "", (PL, PROM, "	promote(p.nodes)\n"), (TN, TPROM, "	return promote(node.next.nodes)\n"), (PL, DEFR, PHELP + DEFR))
e2("ok-promote-bool", "", (PL, PROM, """	strict := false
	for index := len(p.nodes) - 1; index >= 0; index-- {
		if !strict {
			strict = p.nodes[index].StrictOrd()
			continue
		}
		switch node := p.nodes[index].(type) {
		case *seqnode[T]:
			node.kind = Ordered
		case *lparnode[T]:
			node.makeOrdered()
		}
	}
"""))
e2("ok-promote-prefix", "", (PL, PROM, """	for index := len(p.nodes) - 1; index >= 0; index-- {
		if !p.nodes[index].StrictOrd() {
			continue
		}
		for _, node := range p.nodes[:index] {
			switch node := node.(type) {
			case *seqnode[T]:
				node.kind = Ordered
			case *lparnode[T]:
				node.makeOrdered()
			}
		}
		break
	}
"""))
e2("ok-promote-if", "", (PL, """				switch node := p.nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
""", """				if node, ok := p.nodes[index].(*seqnode[T]); ok {
					node.kind = Ordered
				} else if node, ok := p.nodes[index].(*lparnode[T]); ok {
					node.makeOrdered()
				}
"""))
e2("ok-promote-makeord", "", (LP, "	node.ordered = true\n	node.cond = sync.NewCond(&sync.Mutex{})\n", "	node.cond = sync.NewCond(new(sync.Mutex))\n	node.ordered = true\n"))
e2("ok-promote-method", "", (PL, "					node.kind = Ordered\n", "					node.makeOrdered()\n"), (TN, "					node.kind = Ordered\n", "					node.makeOrdered()\n"), (SQ, "func (node *seqnode[T]) StrictOrd()", "func (node *seqnode[T]) makeOrdered() {\n	node.kind = Ordered\n}\n\nfunc (node *seqnode[T]) StrictOrd()"))
TMRG = """	for index := 0; index < len(node.next.nodes)-1; {
		if node.next.nodes[index].TryMerge(node.next.nodes[index+1]) {
			node.next.nodes = slices.Delete(node.next.nodes, index+1, index+2)
		} else {
			index++
		}
	}
"""
TBEG = """	for index := 0; index < len(node.next.nodes); {
		if node.next.nodes[index].Begin(node.next, index, dataSize) {
			index++
		} else {
			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
		}
	}
"""
HELP = """func (p *Pipeline[T]) beginNodes(dataSize *int) {
	for index := 0; index < len(p.nodes); {
		if p.nodes[index].Begin(p, index, dataSize) {
			index++
		} else {
			p.nodes = slices.Delete(p.nodes, index, index+1)
		}
	}
}

func (p *Pipeline[T]) mergeNodes() {
	for index := 0; index < len(p.nodes)-1; {
		if p.nodes[index].TryMerge(p.nodes[index+1]) {
			p.nodes = slices.Delete(p.nodes, index+1, index+2)
		} else {
			index++
		}
	}
}

func (p *Pipeline[T]) endNodes() {
	for _, node := range p.nodes {
		node.End()
	}
}

"""
e2("ok-helpers", "", (PL, BEG, "	p.beginNodes(&filteredSize)\n"), (PL, MRG, "		p.mergeNodes()\n"), (PL, RUNEND, "	p.endNodes()\n"), (PL, DEFR, HELP + DEFR), (TN, TBEG, "	node.next.beginNodes(dataSize)\n"), (TN, TMRG, "	node.next.mergeNodes()\n"), (TN, "	for _, node := range node.next.nodes {\n		node.End()\n	}\n", "	node.next.endNodes()\n"), (TN, 'import "slices"\n', ""))
e2("ok-append-del", "", (PL, "slices.Delete(p.nodes, index, index+1)", "append(p.nodes[:index], p.nodes[index+1:]...)"), (PL, "slices.Delete(p.nodes, index+1, index+2)", "append(p.nodes[:index+1], p.nodes[index+2:]...)"), (PL, '	"slices"\n', ""))
e2("ok-kept", "", (PL, BEG, """	kept := p.nodes[:0]
	for index, node := range p.nodes {
		if node.Begin(p, index, &filteredSize) {
			kept = append(kept, node)
		}
	}
	p.nodes = kept
"""))
e2("ok-kept2", "", (PL, BEG, """	var kept []Node[T]
	for index := range p.nodes {
		if !p.nodes[index].Begin(p, index, &filteredSize) {
			continue
		}
		kept = append(kept, p.nodes[index])
	}
	p.nodes = kept
"""))
e2("ok-beg-continue", "", (PL, BEG, """	for index := 0; index < len(p.nodes); {
		node := p.nodes[index]
		keep := node.Begin(p, index, &filteredSize)
		if !keep {
			p.nodes = slices.Delete(p.nodes, index, index+1)
			continue
		}
		index++
	}
"""))
e2("ok-mrg-from1", "", (PL, MRG, """		for index := 1; index < len(p.nodes); {
			if p.nodes[index-1].TryMerge(p.nodes[index]) {
				p.nodes = slices.Delete(p.nodes, index, index+1)
			} else {
				index++
			}
		}
"""))
e2("ok-end-defer", "", (SQ, END, """	defer func() {
		node.receivers = nil
		node.finalizers = nil
	}()
	close(node.channel)
	node.waitGroup.Wait()
	for i := range node.finalizers {
		node.finalizers[i]()
	}
"""), (SQ, "	node.receivers = nil\n	node.finalizers = nil\n}\n", "}\n"))
e2("ok-end-helper", "", (FL, "func feed[", "func finish(finalizers []Finalizer) {\n	for _, finalize := range finalizers {\n		finalize()\n	}\n}\n\nfunc feed["), (SQ, "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	finish(node.finalizers)\n"), (LP, "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	finish(node.finalizers)\n"), (PN, "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	finish(node.finalizers)\n"))
e2("ok-end-keep", "", (SN, "	node.receivers = nil\n	node.finalizers = nil\n", ""))
e2("ok-ff", "", (PL, "	if index++; index < len(p.nodes) {\n		p.nodes[index].Feed(p, index, seqNo, data)\n	}\n", "	next := index + 1\n	if next >= len(p.nodes) {\n		return\n	}\n	p.nodes[next].Feed(p, next, seqNo, data)\n"))
e2("ok-tm-early", "", (PN, """	if nxt, merge := next.(*parnode[T]); merge {
		node.filters = append(node.filters, nxt.filters...)
		node.receivers = append(node.receivers, nxt.receivers...)
		node.finalizers = append(node.finalizers, nxt.finalizers...)
		return true
	}
	return false
""", """	nxt, merge := next.(*parnode[T])
	if !merge {
		return false
	}
	node.finalizers = append(node.finalizers, nxt.finalizers...)
	node.receivers = append(node.receivers, nxt.receivers...)
	node.filters = append(node.filters, nxt.filters...)
	return true
"""))
e2("ok-tm-helper", "", (SN, """	case *seqnode[T]:
		node.filters = append(node.filters, nxt.filters...)
		node.receivers = append(node.receivers, nxt.receivers...)
		node.finalizers = append(node.finalizers, nxt.finalizers...)
		return true
	case *strictordnode[T]:
		node.filters = append(node.filters, nxt.filters...)
		node.receivers = append(node.receivers, nxt.receivers...)
		node.finalizers = append(node.finalizers, nxt.finalizers...)
		return true
""", """	case *seqnode[T]:
		node.take(nxt.filters, nxt.receivers, nxt.finalizers)
		return true
	case *strictordnode[T]:
		node.take(nxt.filters, nxt.receivers, nxt.finalizers)
		return true
"""), (SN, "func (node *strictordnode[T]) StrictOrd()", """func (node *strictordnode[T]) take(fs []Filter[T], rs []Receiver[T], fins []Finalizer) {
	node.filters = append(node.filters, fs...)
	node.receivers = append(node.receivers, rs...)
	node.finalizers = append(node.finalizers, fins...)
}

func (node *strictordnode[T]) StrictOrd()"""))
e2("ok-tm-kind", "", (SQ, "if nxt.kind == Ordered {", "if node.kind != Ordered && nxt.kind == Ordered {"))
e2("ok-add", "", (PL, """		if l := len(p.nodes); (l == 0) || !p.nodes[l-1].TryMerge(node) {
			p.nodes = append(p.nodes, node)
		}
""", """		if l := len(p.nodes); l > 0 && p.nodes[l-1].TryMerge(node) {
			continue
		}
		p.nodes = append(p.nodes, node)
"""))
e2("ok-add-last", "", (PL, """	for _, node := range nodes {
		if l := len(p.nodes); (l == 0) || !p.nodes[l-1].TryMerge(node) {
			p.nodes = append(p.nodes, node)
		}
	}
""", """	for i := 0; i < len(nodes); i++ {
		p.addNode(nodes[i])
	}
}

func (p *Pipeline[T]) addNode(node Node[T]) {
	if len(p.nodes) > 0 {
		last := p.nodes[len(p.nodes)-1]
		if last.TryMerge(node) {
			return
		}
	}
	p.nodes = append(p.nodes, node)
"""))
for nm, k in (("Ord", 0), ("Seq", 1)):
    e2("ok-tf-helper-" + nm, "", (TN, """	next := &Pipeline[T]{
		pipelineState: p.pipelineState,
	}
	p.Add(
		%s(Receive(func(_ int, data S) S {
			return data
		})),
		&transformNode[S, T]{
			next:      next,
			transform: transform,
		})
	return next
""" % nm, "	return transformAfter(p, %s(Receive(func(_ int, data S) S { return data })), transform)\n" % nm),
    (TN, "func (node *transformNode[S, T]) TryMerge", """func transformAfter[S, T any](p *Pipeline[S], node Node[S], transform func(int, S) T) *Pipeline[T] {
	next := &Pipeline[T]{pipelineState: p.pipelineState}
	p.Add(node, &transformNode[S, T]{next, transform})
	return next
}

func (node *transformNode[S, T]) TryMerge"""))
e2("ok-tf-two", "", (TN, """	p.Add(
		Ord(Receive(func(_ int, data S) S {
			return data
		})),
		&transformNode[S, T]{
			next:      next,
			transform: transform,
		})
	return next
""", """	p.Add(Ord(Receive(func(_ int, data S) S {
		return data
	})))
	p.Add(&transformNode[S, T]{
		next:      next,
		transform: transform,
	})
	return next
"""))
e2("ok-tf-via", "", (TN, """	next := &Pipeline[T]{
		pipelineState: p.pipelineState,
	}
	p.Add(
		Ord(Receive(func(_ int, data S) S {
			return data
		})),
		&transformNode[S, T]{
			next:      next,
			transform: transform,
		})
	return next
""", """	p.Add(Ord(Receive(func(_ int, data S) S {
		return data
	})))
	return Transform(p, transform)
"""))
e2("ok-tn-feed", "", (TN, "	node.next.FeedForward(-1, seqNo, node.transform(seqNo, data))", "	next := node.next\n	transformed := node.transform(seqNo, data)\n	next.FeedForward(-1, seqNo, transformed)"))
e2("ok-run-loopcond", "", (PL, "for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {", "for seqNo := 0; p.ctx.Err() == nil && p.source.Fetch(batchSize) > 0; seqNo++ {"))
e2("ok-run-cancel-err", "", (PL, "				if p.ctx.Err() != nil {\n					break\n				}\n", "				if ctxErr := p.ctx.Err(); ctxErr == nil {\n					continue\n				}\n				break\n"))
e2("ok-wg-go", "", (PN, "	node.waitGroup.Add(1)\n	go func() {\n		defer node.waitGroup.Done()\n", "	node.waitGroup.Go(func() {\n"), (PN, "		}\n	}()\n}", "		}\n	})\n}"))
e2("ok-begin-local", "", (PN, """	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
	node.filters = nil
	keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0)
	return
""", """	receivers, finalizers := ComposeFilters(p, Parallel, dataSize, node.filters)
	node.filters, node.receivers, node.finalizers = nil, receivers, finalizers
	return len(receivers)+len(finalizers) > 0
"""))
e2("ok-end-index", "", (PN, "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	for i := 0; i < len(node.finalizers); i++ {\n		node.finalizers[i]()\n	}\n"))
e2("ok-end-index2", "", (PL, RUNEND, "	for i := range p.nodes {\n		p.nodes[i].End()\n	}\n"))
e2("ok-end-index3", "", (PL, RUNEND, "	for i := 0; i < len(p.nodes); i++ {\n		p.nodes[i].End()\n	}\n"), (TN, "	for _, node := range node.next.nodes {\n		node.End()\n	}\n", "	for i := 0; i < len(node.next.nodes); i++ {\n		node.next.nodes[i].End()\n	}\n"))
e2("ok-end-index4", "", (PL, RUNEND, "	nodes := p.nodes\n	for i := 0; i < len(nodes); i++ {\n		nodes[i].End()\n	}\n"))

# ---- the sorting algorithms (C11-C15, C34)
MS, QS = "psort/mergesort.go", "psort/quicksort.go"


def so(name, want, *edits):
    m("so-" + name, want, *edits)


# merge sort: breaking
so("eq-range", "C12", (MS, "	low, high := p, r+1\n", "	low, high := p, r\n", 0))
so("neq-range", "C12", (MS, "	low, high := p, r+1\n", "	low, high := p, r\n", 1))
so("eq-lower", "C12", (MS, "				low = mid + 1\n".replace("\t\t\t\t", "\t\t\t", 1), "			low = mid + 2\n", 0))
so("eq-swapped", "C12", (MS, "		if !T.less(mid, x) {", "		if T.less(x, mid) {"))
so("neq-swapped", "C12", (MS, "		if T.less(x, mid) {", "		if !T.less(mid, x) {"))
so("search-swap", "C12", (MS, "binarySearchEq(q1, T, p2, r2)", "binarySearchNeq(q1, T, p2, r2)"))
so("search-swap2", "C12", (MS, "binarySearchNeq(q2, T, p1, r1)", "binarySearchEq(q2, T, p1, r1)"))
so("smerge-stable", "C38", (MS, "!T.less(p2, p1)", "T.less(p1, p2)"))
so("smerge-stable2", "C12", (MS, "T.less(p2, p1) {\n			p2++", "!T.less(p1, p2) {\n			p2++"))
so("smerge-tail", "C11", (MS, "A.assign(p3, p2, r2+1-p2)", "A.assign(p3, p2, r2-p2)"))
so("smerge-head", "C11", (MS, "A.assign(p3, p1, r1+1-p1)", "A.assign(p3, p1, r1-p1)"))
so("smerge-p3", "C11", (MS, "		p3 += n2\n", ""))
so("smerge-p3b", "C11", (MS, "		p3 += n1\n", ""))
so("smerge-src", "C11", (MS, "A.assign(p3, q2, n2)", "A.assign(p3, p2, n2)"))
so("pmerge-lt", "C11", (MS, "func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) }", "func() { pMerge(T, p1, q1-1, p2, q2-2, A, p3) }", 0))
so("pmerge-rt", "C11", (MS, "pMerge(T, q1+1, r1, q2, r2, A, q3+1)", "pMerge(T, q1+1, r1, q2, r2, A, q3)"))
so("pmerge-rt2", "C11", (MS, "pMerge(T, q1, r1, q2+1, r2, A, q3+1)", "pMerge(T, q1+1, r1, q2+1, r2, A, q3+1)"))
so("pmerge-rt3", "C11", (MS, "pMerge(T, q1, r1, q2+1, r2, A, q3+1)", "pMerge(T, q1, r1, q2, r2, A, q3+1)"))
so("pmerge-q3", "C11", (MS, "q3 := p3 + (q1 - p1) + (q2 - p2)", "q3 := p3 + (q1 - p1) + (q2 - p2) + 1", 1))
so("pmerge-noassign", "C11", (MS, "		A.assign(q3, q2, 1)\n", ""))
so("pmerge-assign", "C11", (MS, "A.assign(q3, q1, 1)", "A.assign(q3, q2, 1)"))
so("pmerge-ge", "C11 C12", (MS, "if n1 > n2 {\n		if n1 == 0", "if n1 > n2+msortGrainSize {\n		if n1 == 0"), (MS, "(n1 + n2) < msortGrainSize", "(n1 + n2) < msortGrainSize && n1 == n2"))
so("ss-nowait", "C14", (MS, "			temp.Wait()\n			if p != nil", "			if p != nil"))
so("ss-nodefer", "C14", (MS, "	defer temp.Wait()\n", ""))
so("ss-quarter", "C12", (MS, "pSort(index+q3, size-q3)", "pSort(index+q3, q1)"))
so("ss-quarter2", "C12", (MS, "				func() { pSort(index+q2, q1) },\n", ""))
so("ss-merge-idx", "C11", (MS, "A, index+q2)", "A, index+q1)"))
so("ss-merge-last", "C11", (MS, "index+q3, index+size-1, A", "index+q3, index+q3+q1-1, A"))
so("ss-merge-sw", "C12", (MS, "pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index)", "pMerge(T, index+q1, index+q2-1, index, index+q1-1, A, index)"))
so("ss-merge-back", "C12", (MS, "pMerge(A, index, index+q2-1, index+q2, index+size-1, T, index)", "pMerge(T, index, index+q2-1, index+q2, index+size-1, A, index)"))
so("ss-leaf", "C11", (MS, "			sSort(index, index+size)\n", "			sSort(index, size)\n"))
so("ss-len", "C12", (MS, "	pSort(0, size)\n", "	pSort(0, size-1)\n"))
so("ss-assign-same", "C12", (MS, "&sorter{a.Less, a.Assign(data)}", "&sorter{data.Less, a.Assign(data)}"))
so("ss-do2", "C14", (MS, """			parallel.Do(
				func() { pMerge(T, index, index+q1-1""", """			go parallel.Do(
				func() { pMerge(T, index, index+q1-1"""))
so("ss-merge-conc", "C14", (MS, """index+size-1, A, index+q2) },
			)
			pMerge(A, index, index+q2-1, index+q2, index+size-1, T, index)
""", """index+size-1, A, index+q2) },
				func() { pMerge(A, index, index+q2-1, index+q2, index+size-1, T, index) },
			)
"""))
so("ss-shared-q", "C14", (MS, "			q1 := size / 4\n			q2 := q1 + q1\n			q3 := q2 + q1\n", "			q1 = size / 4\n			q2 := q1 + q1\n			q3 := q2 + q1\n"), (MS, "	var pSort func(int, int)\n", "	var pSort func(int, int)\n	var q1 int\n"))
so("ss-nopanic", "C14", (MS, "			if p != nil {\n				panic(p)\n			}\n", "			_ = p\n"))
so("ss-progress", "C12", (MS, "q1 := size / 4\n			q2 := q1 + q1\n			q3 := q2 + q1", "q1 := size * 0\n			q2 := q1 + q1\n			q3 := q2 + q1"))
# quicksort: breaking
so("ok-qs-nopivot", "", (QS, "				data.Swap(index, m)\n", "				data.Swap(index+1, m)\n"))
so("qs-final", "C13", (QS, "			data.Swap(j, index)\n", ""))
so("qs-final2", "C13", (QS, "			data.Swap(j, index)\n", "			data.Swap(i+1, index)\n"))
so("qs-i", "C13", (QS, "			i = j + 1\n", "			i = j + 2\n"))
so("qs-left", "C13", (QS, "pSort(index, j-index)", "pSort(index, j-index-1)"))
so("qs-right", "C13", (QS, "pSort(i, index+size-i)", "pSort(i, size-i)"))
so("qs-right2", "C13", (QS, "pSort(i, index+size-i)", "pSort(i, index+size-i-1)"))
so("qs-less", "C13", (QS, "!data.Less(index, j)", "data.Less(index, j)"))
so("qs-less2", "C13", (QS, "!data.Less(i, index)", "!data.Less(index, i)"))
so("qs-noloop-check", "C13", (QS, "					if i == j {\n						break outer\n					}\n					i++\n", "					i++\n					if i == j {\n						break outer\n					}\n"), (QS, "				if i == j {\n					break outer\n				}\n				data.Swap(i, j)", "				data.Swap(i, j)"))
so("qs-leaf", "C13", (QS, "			sSort(index, index+size)\n", "			sSort(index, size)\n"))
so("qs-leaf2", "C13", (QS, "			sSort(index, index+size)\n", "			sSort(index, index+size-1)\n"))
so("qs-sorted", "C13", (QS, "if !IsSorted(data)", "if IsSorted(data)"))
so("qs-median", "C13", (QS, "index+offset*6, index+offset*7, index+size-1", "index+offset*6, index+offset*7, index+size"))
so("qs-j0", "C13", (QS, "i, j := index, index+size\n", "i, j := index, index+size-1\n"))
so("qs-overlap", "C13", (QS, "pSort(i, index+size-i)", "pSort(j, index+size-j)"))
so("qs-nodo", "C14", (QS, "			parallel.Do(\n", "			go parallel.Do(\n"))
so("qs-shared", "C14", (QS, "	var pSort func(int, int)\n", "	var pSort func(int, int)\n	var i, j int\n"), (QS, "i, j := index, index+size\n", "i, j = index, index+size\n"))
so("ok-qs-swapguard", "", (QS, "if m > index {", "if m > index+1 {"))
so("qs-half", "C13", (QS, "				func() { pSort(i, index+size-i) },\n", ""))
# IsSorted: breaking
so("is-start", "C15", (PS_, "for i := range serialCutoff - 1 {", "for i := range serialCutoff - 2 {"))
so("is-start2", "C15", (PS_, "pTest(serialCutoff, size-serialCutoff)", "pTest(serialCutoff+1, size-serialCutoff-1)"))
so("is-end", "C15", (PS_, "pTest(serialCutoff, size-serialCutoff)", "pTest(serialCutoff, size-serialCutoff-1)"))
so("is-over", "C15", (PS_, "pTest(serialCutoff, size-serialCutoff)", "pTest(serialCutoff, size)"))
so("is-half", "C15", (PS_, "pTest(index+half, size-half)", "pTest(index+half+1, size-half-1)"))
so("is-or", "C15", (PS_, "speculative.And(", "speculative.Or("))
so("is-less", "C15", (PS_, "data.Less(j, j-1)", "data.Less(j-1, j)"))
so("is-stride", "C15", (PS_, "if data.Less(j, j-1) {", "if i > 0 && data.Less(j, j-1) {"))
so("is-flag", "C15", (PS_, "(atomic.LoadInt32(&done) != 0)", "(atomic.LoadInt32(&done) == 0)"))
so("is-flagstore", "C15", (PS_, "			return true\n		}\n		half", "			atomic.StoreInt32(&done, 1)\n			return true\n		}\n		half"))
so("is-nonatomic", "C14", (PS_, "				if data.Less(j, j-1) {\n					atomic.StoreInt32(&done, 1)", "				if data.Less(j, j-1) {\n					done = 1"))
so("is-nowait", "C14", (PS_, "	defer wg.Wait()\n", ""))
so("is-wgadd", "C14", (PS_, "wg.Add(2)", "wg.Add(1)"))
so("is-nodone", "C14", (PS_, "func() bool { defer wg.Done(); return pTest(index, half) }", "func() bool { return pTest(index, half) }"))
so("is-halfshared", "C14", (PS_, "		half := size / 2\n", "		half = size / 2\n"), (PS_, "	var pTest func(int, int) bool\n", "	var pTest func(int, int) bool\n	var half int\n"))
so("is-serial-true", "C15", (PS_, "		return sort.IsSorted(data)", "		return true"))
so("is-serial-inv", "C15", (PS_, "		if data.Less(i+1, i) {\n			return false", "		if data.Less(i+1, i) {\n			return true"))
# behaviour-preserving
so("ok-mid", "", (MS, "mid := (low + high) / 2", "mid := low + (high-low)/2", "all"))
so("ok-mid2", "", (MS, "mid := (low + high) / 2", "mid := int(uint(low+high) >> 1)", "all"))
so("ok-noguard", "", (MS, "	if low > high {\n		return low\n	}\n", "", "all"))
so("ok-search", "", (MS, """	low, high := p, r+1
	if low > high {
		return low
	}
	for low < high {
		mid := (low + high) / 2
		if T.less(x, mid) {
			high = mid
		} else {
			low = mid + 1
		}
	}
	return high
""", """	return p + sort.Search(r+1-p, func(i int) bool { return T.less(x, p+i) })
"""), (MS, 'import (\n', 'import (\n	"sort"\n'))
so("ok-search2", "", (MS, """		if !T.less(mid, x) {
			high = mid
		} else {
			low = mid + 1
		}
""", """		if T.less(mid, x) {
			low = mid + 1
			continue
		}
		high = mid
"""), (MS, "	return high\n", "	return low\n", "all"))
so("ok-search-pred", "", (MS, "func binarySearchEq(", """func bisect(low, high int, pred func(int) bool) int {
	for low < high {
		mid := (low + high) / 2
		if pred(mid) {
			high = mid
		} else {
			low = mid + 1
		}
	}
	return low
}

func binarySearchEq("""), (MS, """	low, high := p, r+1
	if low > high {
		return low
	}
	for low < high {
		mid := (low + high) / 2
		if T.less(x, mid) {
			high = mid
		} else {
			low = mid + 1
		}
	}
	return high
""", "	return bisect(p, r+1, func(i int) bool { return T.less(x, i) })\n"), (MS, """	low, high := p, r+1
	if low > high {
		return low
	}
	for low < high {
		mid := (low + high) / 2
		if !T.less(mid, x) {
			high = mid
		} else {
			low = mid + 1
		}
	}
	return high
""", "	return bisect(p, r+1, func(i int) bool { return !T.less(i, x) })\n"))
so("ok-smerge", "", (MS, """	for {
		if p2 > r2 {
			A.assign(p3, p1, r1+1-p1)
			return
		}

		q1 := p1
		for (p1 <= r1) && !T.less(p2, p1) {
			p1++
		}
		n1 := p1 - q1
		A.assign(p3, q1, n1)
		p3 += n1

		if p1 > r1 {
			A.assign(p3, p2, r2+1-p2)
			return
		}

		q2 := p2
		for (p2 <= r2) && T.less(p2, p1) {
			p2++
		}
		n2 := p2 - q2
		A.assign(p3, q2, n2)
		p3 += n2
	}
""", """	for p1 <= r1 && p2 <= r2 {
		if T.less(p2, p1) {
			A.assign(p3, p2, 1)
			p2++
		} else {
			A.assign(p3, p1, 1)
			p1++
		}
		p3++
	}
	if p1 <= r1 {
		A.assign(p3, p1, r1+1-p1)
	} else {
		A.assign(p3, p2, r2+1-p2)
	}
"""))
so("ok-smerge2", "", (MS, """	for {
		if p2 > r2 {
			A.assign(p3, p1, r1+1-p1)
			return
		}
""", "	for p2 <= r2 {\n"), (MS, """		A.assign(p3, q2, n2)
		p3 += n2
	}
""", """		A.assign(p3, q2, n2)
		p3 += n2
	}
	A.assign(p3, p1, r1+1-p1)
"""))
so("ok-smerge-helper", "", (MS, """		q1 := p1
		for (p1 <= r1) && !T.less(p2, p1) {
			p1++
		}
		n1 := p1 - q1
		A.assign(p3, q1, n1)
		p3 += n1
""", """		n1 := leftRun(T, p1, r1, p2)
		A.assign(p3, p1, n1)
		p1 += n1
		p3 += n1
"""), (MS, "func sMerge(", """func leftRun(T *sorter, p1, r1, p2 int) (n int) {
	for p1+n <= r1 && !T.less(p2, p1+n) {
		n++
	}
	return n
}

func sMerge("""))
so("ok-smerge-for", "", (MS, """		q1 := p1
		for (p1 <= r1) && !T.less(p2, p1) {
			p1++
		}
""", """		q1 := p1
		for ; p1 <= r1; p1++ {
			if T.less(p2, p1) {
				break
			}
		}
"""))
so("ok-pmerge-flip", "", (MS, "	if n1 > n2 {\n		if n1 == 0 {\n			return\n		}\n", "	if n2 < n1 {\n"), (MS, "		if n2 == 0 {\n			return\n		}\n", ""))
so("ok-pmerge-do", "", (MS, """		parallel.Do(
			func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) },
			func() { pMerge(T, q1+1, r1, q2, r2, A, q3+1) },
		)
""", """		split(T, p1, q1-1, p2, q2-1, q1+1, r1, q2, r2, A, p3, q3+1)
"""), (MS, "func StableSort(", """func split(T *sorter, p1, r1, p2, r2, p3, r3, p4, r4 int, A *sorter, to1, to2 int) {
	parallel.Do(
		func() { pMerge(T, p1, r1, p2, r2, A, to1) },
		func() { pMerge(T, p3, r3, p4, r4, A, to2) },
	)
}

// StableSort sorts.
func StableSort("""))
so("ok-pmerge-left", "", (MS, """		parallel.Do(
			func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) },
			func() { pMerge(T, q1+1, r1, q2, r2, A, q3+1) },
		)
""", """		left := func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) }
		right := func() { pMerge(T, q1+1, r1, q2, r2, A, q3+1) }
		parallel.Do(left, right)
"""))
so("ok-pmerge-seq", "", (MS, """		parallel.Do(
			func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) },
			func() { pMerge(T, q1+1, r1, q2, r2, A, q3+1) },
		)
""", """		pMerge(T, p1, q1-1, p2, q2-1, A, p3)
		pMerge(T, q1+1, r1, q2, r2, A, q3+1)
"""))
so("ok-pmerge-ret", "", (MS, "	} else {\n		if n2 == 0 {\n			return\n		}\n", "		return\n	}\n	{\n		if n2 == 0 {\n			return\n		}\n"))
so("ok-ss-two", "", (MS, """			parallel.Do(
				func() { pSort(index, q1) },
				func() { pSort(index+q1, q1) },
				func() { pSort(index+q2, q1) },
				func() { pSort(index+q3, size-q3) },
			)
""", """			parallel.Do(
				func() {
					parallel.Do(
						func() { pSort(index, q1) },
						func() { pSort(index+q1, q1) },
					)
				},
				func() {
					parallel.Do(
						func() { pSort(index+q2, q1) },
						func() { pSort(index+q3, size-q3) },
					)
				},
			)
"""))
so("ok-ss-consts", "", (MS, "q2 := q1 + q1\n			q3 := q2 + q1\n", "q2, q3 := 2*q1, 3*q1\n"))
so("ok-ss-ranges", "", (MS, "q1 := size / 4\n			q2 := q1 + q1\n			q3 := q2 + q1\n", "q2 := size / 2\n			q1 := q2 / 2\n			q3 := q2 + (size-q2)/2\n"), (MS, "pSort(index+q1, q1)", "pSort(index+q1, q2-q1)"), (MS, "pSort(index+q2, q1)", "pSort(index+q2, q3-q2)"))
so("ok-ss-lohi", "", (MS, "	pSort = func(index, size int) {\n", "	pSort = func(low, high int) {\n		index, size := low, high-low\n"), (MS, "pSort(index, q1)", "pSort(index, index+q1)"), (MS, "pSort(index+q1, q1)", "pSort(index+q1, index+q2)"), (MS, "pSort(index+q2, q1)", "pSort(index+q2, index+q3)"), (MS, "pSort(index+q3, size-q3)", "pSort(index+q3, high)"))
so("ok-ss-early", "", (MS, "			sSort(index, index+size)\n		} else {\n", "			sSort(index, index+size)\n			return\n		}\n		{\n"))
so("ok-ss-named", "", (MS, "	go func() {\n		defer func() {\n			p = internal.WrapPanic(recover())\n			temp.Done()\n		}()\n", "	makeTemp := func() {\n		defer temp.Done()\n		defer func() { p = internal.WrapPanic(recover()) }()\n"), (MS, "a.Assign(data)}\n	}()\n", "a.Assign(data)}\n	}\n	go makeTemp()\n"))
so("ok-ss-seqtemp", "", (MS, """	var p interface{}
	var temp sync.WaitGroup
	temp.Add(1)
	defer temp.Wait()
	go func() {
		defer func() {
			p = internal.WrapPanic(recover())
			temp.Done()
		}()
		a := data.NewTemp()
		T = &sorter{data.Less, data.Assign(a)}
		A = &sorter{a.Less, a.Assign(data)}
	}()
""", """	a := data.NewTemp()
	T = &sorter{data.Less, data.Assign(a)}
	A = &sorter{a.Less, a.Assign(data)}
"""), (MS, """			temp.Wait()
			if p != nil {
				panic(p)
			}
""", ""), (MS, '	"sync"\n\n	"github.com/intel/forGoParallel/internal"\n', ''))
so("ok-ss-chan", "", (MS, "	var temp sync.WaitGroup\n	temp.Add(1)\n	defer temp.Wait()\n", "	temp := make(chan struct{})\n	defer func() { <-temp }()\n"), (MS, "			temp.Done()\n", "			close(temp)\n"), (MS, "			temp.Wait()\n", "			<-temp\n"), (MS, '	"sync"\n\n', ''))
so("ok-ss-wait-helper", "", (MS, """			temp.Wait()
			if p != nil {
				panic(p)
			}
""", "			await()\n"), (MS, "	var pSort func(int, int)\n", """	await := func() {
		temp.Wait()
		if p != nil {
			panic(p)
		}
	}
	var pSort func(int, int)
"""))
so("ok-sorter-iface", "", (MS, "	less   func(i, j int) bool\n", "	data   StableSorter\n"), (MS, "T.less(", "T.data.Less(", "all"), (MS, "&sorter{data.Less, ", "&sorter{data, "), (MS, "&sorter{a.Less, ", "&sorter{a, "))
so("ok-sorter-method", "", (MS, "func sMerge(T *sorter, ", "func (T *sorter) sMerge("), (MS, "		sMerge(T, p1", "		T.sMerge(p1"))
so("ok-sorter-value", "", (MS, "*sorter", "sorter", "all"), (MS, "&sorter{", "sorter{", "all"))
so("ok-qs-helper", "", (QS, """			m := pseudoMedianOfNine(data, index, size)
			if m > index {
				data.Swap(index, m)
			}
			i, j := index, index+size
		outer:
			for {
				for {
					j--
					if !data.Less(index, j) {
						break
					}
				}
				for {
					if i == j {
						break outer
					}
					i++
					if !data.Less(i, index) {
						break
					}
				}
				if i == j {
					break outer
				}
				data.Swap(i, j)
			}
			data.Swap(j, index)
			i = j + 1
""", """			j := partition(data, index, size)
			i := j + 1
"""), (QS, "func Sort(", """func partition(data sort.Interface, index, size int) int {
	m := pseudoMedianOfNine(data, index, size)
	if m > index {
		data.Swap(index, m)
	}
	i, j := index, index+size
outer:
	for {
		for {
			j--
			if !data.Less(index, j) {
				break
			}
		}
		for {
			if i == j {
				break outer
			}
			i++
			if !data.Less(i, index) {
				break
			}
		}
		if i == j {
			break outer
		}
		data.Swap(i, j)
	}
	data.Swap(j, index)
	return j
}

// Sort sorts.
func Sort("""))
so("ok-qs-loops", "", (QS, """				for {
					j--
					if !data.Less(index, j) {
						break
					}
				}
""", """				j--
				for data.Less(index, j) {
					j--
				}
"""))
so("ok-qs-loops2", "", (QS, """				for {
					if i == j {
						break outer
					}
					i++
					if !data.Less(i, index) {
						break
					}
				}
				if i == j {
					break outer
				}
				data.Swap(i, j)
""", """				for i < j {
					i++
					if !data.Less(i, index) {
						break
					}
				}
				if i == j {
					break outer
				}
				data.Swap(i, j)
"""))
so("ok-qs-median", "", (QS, "			m := pseudoMedianOfNine(data, index, size)\n			if m > index {\n				data.Swap(index, m)\n			}\n", "			data.Swap(index, pseudoMedianOfNine(data, index, size))\n"))
so("ok-qs-median3", "", (QS, "m := pseudoMedianOfNine(data, index, size)", "m := medianOfThree(data, index, index+size/2, index+size-1)"))
so("ok-qs-median3b", "", (QS, """	if data.Less(l, m) {
		if data.Less(m, r) {
			return m
		} else if data.Less(l, r) {
			return r
		}
	} else if data.Less(r, m) {
		return m
	} else if data.Less(r, l) {
		return r
	}
	return l
""", """	switch {
	case data.Less(l, m) && data.Less(m, r), !data.Less(l, m) && data.Less(r, m):
		return m
	case data.Less(l, m) && data.Less(l, r), !data.Less(l, m) && data.Less(r, l):
		return r
	}
	return l
"""))
so("ok-qs-right", "", (QS, "			i = j + 1\n", ""), (QS, "pSort(i, index+size-i)", "pSort(j+1, index+size-j-1)"))
so("ok-qs-lohi", "", (QS, "	pSort = func(index, size int) {\n", "	pSort = func(index, end int) {\n		size := end - index\n"), (QS, "pSort(index, j-index)", "pSort(index, j)"), (QS, "pSort(i, index+size-i)", "pSort(i, end)"))
so("ok-qs-named", "", (QS, "	var pSort func(int, int)\n	pSort = func(index, size int) {\n", "	if !IsSorted(data) {\n		quicksort(data, sSort, 0, size)\n	}\n}\n\nfunc quicksort(data Sorter, sSort func(i, j int), index, size int) {\n	{\n"), (QS, "	if !IsSorted(data) {\n		pSort(0, size)\n	}\n", ""), (QS, "pSort(index, j-index)", "quicksort(data, sSort, index, j-index)"), (QS, "pSort(i, index+size-i)", "quicksort(data, sSort, i, index+size-i)"))
so("ok-qs-lower", "", (QS, "func() { pSort(i, index+size-i) },\n			)\n", "func() { pSort(i, index+size-i) },\n			)\n			return\n"), (QS, "	if !IsSorted(data) {\n		pSort(0, size)\n	}\n", "	if IsSorted(data) {\n		return\n	}\n	pSort(0, size)\n"))
so("ok-qs-order", "", (QS, "				func() { pSort(index, j-index) },\n				func() { pSort(i, index+size-i) },\n", "				func() { pSort(i, index+size-i) },\n				func() { pSort(index, j-index) },\n"))
so("ok-qs-small", "", (QS, "			sSort(index, index+size)\n		} else {\n", "			sSort(index, index+size)\n			return\n		}\n		{\n"))
so("ok-qs-method", "", (QS, "	sSort := data.SequentialSort\n", ""), (QS, "sSort(", "data.SequentialSort(", "all"))
so("ok-qs-loop", "", (QS, """			parallel.Do(
				func() { pSort(index, j-index) },
				func() { pSort(i, index+size-i) },
			)
""", """			left := func() { pSort(index, j-index) }
			right := func() { pSort(i, index+size-i) }
			parallel.Do(left, right)
"""))
so("ok-is-loop", "", (PS_, "	for i := range serialCutoff - 1 {\n		if data.Less(i+1, i) {", "	for i := 1; i < serialCutoff; i++ {\n		if data.Less(i, i-1) {"))
so("ok-is-leafloop", "", (PS_, """			for i := range size {
				j := i + index
				if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
""", """			for j := index; j < index+size; j++ {
				if (((j - index) % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
"""))
so("ok-is-leaf", "", (PS_, """			for i := range size {
				j := i + index
				if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
					return false
				}
				if data.Less(j, j-1) {
					atomic.StoreInt32(&done, 1)
					return false
				}
			}
			return true
""", """			return leaf(index, size)
"""), (PS_, "	var pTest func(int, int) bool\n", """	leaf := func(index, size int) bool {
		for i := range size {
			j := i + index
			if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
				return false
			}
			if data.Less(j, j-1) {
				atomic.StoreInt32(&done, 1)
				return false
			}
		}
		return true
	}
	var pTest func(int, int) bool
"""))
so("ok-is-bool", "", (PS_, "	var done int32\n", "	var done atomic.Bool\n"), (PS_, "(atomic.LoadInt32(&done) != 0)", "done.Load()"), (PS_, "atomic.StoreInt32(&done, 1)", "done.Store(true)"))
so("ok-is-parallel", "", (PS_, "		wg.Add(2)\n		result := speculative.And(\n			func() bool { defer wg.Done(); return pTest(index, half) },\n			func() bool { defer wg.Done(); return pTest(index+half, size-half) },\n		)\n", "		result := parallel.And(\n			func() bool { return pTest(index, half) },\n			func() bool { return pTest(index+half, size-half) },\n		)\n"), (PS_, "	// speculative.And may return while its second argument is still running\n	var wg sync.WaitGroup\n	defer wg.Wait()\n", ""), (PS_, '	"sync"\n', ''), (PS_, "forGoParallel/speculative", "forGoParallel/parallel"))
so("ok-is-earlyflag", "", (PS_, "		half := size / 2\n", "		if atomic.LoadInt32(&done) != 0 {\n			return false\n		}\n		half := size / 2\n"))
so("ok-is-ret", "", (PS_, "		result := speculative.And(", "		return speculative.And("), (PS_, "		return result\n", ""))
so("ok-is-noflag", "", (PS_, "				if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {\n					return false\n				}\n", ""), (PS_, "					atomic.StoreInt32(&done, 1)\n", ""), (PS_, "	var done int32\n", ""), (PS_, '	"sync/atomic"\n', ''))
so("ok-is-cutoff", "", (PS_, "const serialCutoff = 10", "const serialCutoff = 32"))
so("ok-is-nocutoff", "", (PS_, "pTest(serialCutoff, size-serialCutoff)", "pTest(1, size-1)"))
so("ok-is-grain", "", (QS, "const qsortGrainSize = 0x500", "const qsortGrainSize = 0x800"), (MS, "const msortGrainSize = 0x3000", "const msortGrainSize = 0x2000"))
so("ok-is-wggo", "", (PS_, "		wg.Add(2)\n", "		wg.Add(1)\n		wg.Add(1)\n"))

# a feeder that looks again and again while it holds the lock
nd("so-spin", "C24", (SN, "		default:\n			node.cond.Wait()\n", "		default:\n"))
nd("lp-spin", "C24", (LP, "			default:\n				node.cond.Wait()\n", "			default:\n"))
nd("ok-so-unlockspin", "", (SN, "		default:\n			node.cond.Wait()\n", "		default:\n			node.cond.L.Unlock()\n			runtime.Gosched()\n			node.cond.L.Lock()\n"), (SN, 'import (\n', 'import (\n	"runtime"\n'))

# goroutines that go on after the context is done
nd("ord-nocancel", "C23", (SQ, "				for {\n					select {\n					case <-p.ctx.Done():\n						return\n					case batch, ok := <-node.channel:\n						switch", "				for {\n					select {\n					case <-p.ctx.Done():\n					case batch, ok := <-node.channel:\n						switch"))
nd("lp-nocancel", "C23", (LP, "							node.cond.L.Unlock()\n						}\n						return\n", "							node.cond.L.Unlock()\n						}\n"))
nd("ok-seq-for-ctx", "", (SQ, "				for {\n					select {\n					case <-p.ctx.Done():\n						return\n					case batch, ok := <-node.channel:\n						if", "				for p.ctx.Err() == nil {\n					select {\n					case <-p.ctx.Done():\n					case batch, ok := <-node.channel:\n						if"))

# the condition variable is used although it was not made
nd("lp-nocond", "C24", (LP, "	node.cond = sync.NewCond(&sync.Mutex{})\n", ""))
nd("so-nocond", "C24", (SN, "		node.cond = sync.NewCond(&sync.Mutex{})\n", ""))
nd("lp-cond-always", "C24", (LP, "						if node.ordered {\n							node.cond.L.Lock()\n							if batch", "						if node.ordered || len(node.finalizers) > 0 {\n							node.cond.L.Lock()\n							if batch"))
nd("lp-cond-cancel", "C24", (LP, "					case <-p.ctx.Done():\n						if node.ordered {", "					case <-p.ctx.Done():\n						if node.limit > 0 {"))
nd("so-cond-late", "C24", (SN, "		node.cond = sync.NewCond(&sync.Mutex{})\n", ""), (SN, "		}()\n	}\n	return\n", "		}()\n		node.cond = sync.NewCond(&sync.Mutex{})\n	}\n	return\n"))
# bounds
def bd(name, want, *e): m("bd-" + name, want, *e)
TR = "pipeline/transformnode.go"
bd("tr-merge-ge", "C36", (TR, "for index := 0; index < len(node.next.nodes)-1; {", "for index := 0; index >= len(node.next.nodes)-1; {"))
bd("tr-merge-all", "C36", (TR, "for index := 0; index < len(node.next.nodes)-1; {", "for index := 0; index < len(node.next.nodes); {"))
bd("tr-merge-neg", "C36", (TR, "for index := 0; index < len(node.next.nodes)-1; {", "for index := -1; index < len(node.next.nodes)-1; {"))
bd("tr-so-len", "C36", (TR, "for index := len(node.next.nodes) - 1; index >= 0; index-- {", "for index := len(node.next.nodes); index >= 0; index-- {"))
bd("run-nonodes", "C36", (PL, "	if len(p.nodes) > 0 {\n		for index", "	if len(p.nodes) >= 0 {\n		for index"))
bd("run-so", "C36", (PL, "for index = index - 1; index >= 0; index-- {", "for index = index - 1; index >= -1; index-- {"))
bd("run-div", "C36", (PL, "((dataSize - 1) / p.NofBatches(0)) + 1", "((dataSize - 1) / p.nofBatches) + 1"))
bd("ff-le", "C36", (PL, "if index++; index < len(p.nodes) {", "if index++; index <= len(p.nodes) {"))
bd("add-l", "C36", (PL, "!p.nodes[l-1].TryMerge(node)", "!p.nodes[l].TryMerge(node)"))
bd("limit", "C36", ("pipeline/filters.go", "result = data[:limit-seen]", "result = data[:limit]"))
bd("skip", "C36", ("pipeline/filters.go", "if (seen + l) > n {", "if (seen + l) >= 0 {"))
bd("src-gt", "C36", ("pipeline/source.go", "	case n >= src.size:\n		fetched = src.size\n		src.data = src.value\n", "	case n > src.size+1:\n		fetched = src.size\n		src.data = src.value\n"))
bd("or3", "C02", ("parallel/parallel.go", "	case 0:\n		return false\n", ""))
bd("ok-ff", "", (PL, "if index++; index < len(p.nodes) {\n		p.nodes[index].Feed(p, index, seqNo, data)\n	}", "next := index + 1\n	if next >= len(p.nodes) {\n		return\n	}\n	p.nodes[next].Feed(p, next, seqNo, data)"))
bd("ok-run-helper", "", (PL, "		for index := 0; index < len(p.nodes)-1; {\n			if p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes = slices.Delete(p.nodes, index+1, index+2)\n			} else {\n				index++\n			}\n		}\n", "		p.mergeNodes()\n"), (PL, "// Run initiates pipeline execution by calling\n", "func (p *Pipeline[T]) mergeNodes() {\n	merged := p.nodes[:1]\n	for _, node := range p.nodes[1:] {\n		if !merged[len(merged)-1].TryMerge(node) {\n			merged = append(merged, node)\n		}\n	}\n	p.nodes = merged\n}\n\n// Run initiates pipeline execution by calling\n"))
bd("ok-so-helper", "", (PL, "	for index := len(p.nodes) - 1; index >= 0; index-- {\n		if p.nodes[index].StrictOrd() {\n			for index = index - 1; index >= 0; index-- {", "	for last := len(p.nodes) - 1; last >= 0; last-- {\n		if p.nodes[last].StrictOrd() {\n			for index := 0; index < last; index++ {"))
bd("ok-halve", "", ("parallel/parallel.go", "half := len(thunks) / 2", "half := len(thunks) >> 1", "all"))
# C37: the context of a run
def cx(name, want, *e): m("cx-" + name, want, *e)
RUN = "	ctx, cancel := context.WithCancel(context.Background())\n	defer cancel()\n	p.RunWithContext(ctx, cancel)\n"
ST = "	p.ctx, p.cancel = ctx, cancel\n"
NT = "	for i, notifier := range p.notifiers {\n		go notifier()\n		p.notifiers[i] = nil\n	}\n"
cx("nodefer", "C37", (PL, "	defer cancel()\n", ""))
cx("late", "C37", (PL, RUN, "	ctx, cancel := context.WithCancel(context.Background())\n	p.RunWithContext(ctx, cancel)\n	cancel()\n"))
cx("early", "C37", (PL, "	defer cancel()\n	p.Run", "	cancel()\n	p.Run"))
cx("go-early", "C37", (PL, "	defer cancel()\n	p.Run", "	go cancel()\n	defer cancel()\n	p.Run"))
cx("timeout", "C37", (PL, "context.WithCancel(context.Background())\n	defer", "context.WithTimeout(context.Background(), 1<<40)\n	defer"))
cx("stalectx", "C37", (PL, "context.WithCancel(context.Background())\n	defer", "context.WithCancel(p.Context())\n	defer"))
cx("err-only", "C37", (PL, "	defer cancel()\n	p.Run", "	defer func() {\n		if p.Err() != nil {\n			cancel()\n		}\n	}()\n	p.Run"))
cx("nostore", "C37", (PL, ST, "	p.ctx = ctx\n"))
cx("derived", "C37", (PL, ST, "	p.ctx, p.cancel = context.WithCancel(ctx)\n"))
cx("once", "C37", (PL, ST, "	if p.ctx == nil {\n		p.ctx, p.cancel = ctx, cancel\n	}\n"))
cx("after-notify", "C37", (PL, ST + NT, NT + ST))
cx("reset", "C37", (PL, "	for _, node := range p.nodes {\n		node.End()\n	}\n	if err", "	p.ctx = nil\n	for _, node := range p.nodes {\n		node.End()\n	}\n	if err"))
cx("selfcancel", "C37", (PL, "		node.End()\n	}\n	if err", "		p.cancel()\n		node.End()\n	}\n	if err"))
cx("notify-sync", "C37", (PL, "		go notifier()\n", "		notifier()\n"))
cx("notify-all-in-one", "C37", (PL, NT, "	go func() {\n		for _, notifier := range p.notifiers {\n			notifier()\n		}\n	}()\n"))
cx("notify-first", "C37", (PL, "range p.notifiers {", "range p.notifiers[:min(1, len(p.notifiers))] {"))
cx("notify-skip", "C37", (PL, "		go notifier()\n		p", "		if i > 0 {\n			go notifier()\n		}\n		p"))
cx("notify-twice", "C37", (PL, "		go notifier()\n		p", "		go notifier()\n		go notifier()\n		p"))
cx("notify-prep", "C37", (PL, NT, ""), (PL, "	dataSize := p.source.Prepare(p.ctx)\n", "	dataSize := p.source.Prepare(p.ctx)\n" + NT))
cx("notify-clear", "C37", (PL, "		p.notifiers[i] = nil\n", "		if i+1 < len(p.notifiers) {\n			p.notifiers[i+1] = nil\n		}\n"))
cx("notify-replace", "C37", (PL, "	p.notifiers = append(p.notifiers, f)", "	p.notifiers = append(p.notifiers[:0], f)"))
cx("notify-now", "C37", (PL, "	p.notifiers = append(p.notifiers, f)", "	p.notifiers = append(p.notifiers, f)\n	if p.ctx != nil {\n		go f()\n	}"))
cx("cancel-noop", "C37", (PL, "	p.cancel()\n}", "	if p.Err() != nil {\n		p.cancel()\n	}\n}"))
cx("node-cancels", "C37", ("pipeline/parnode.go", "		case <-p.ctx.Done():\n", "		case <-p.ctx.Done():\n			if seqNo > 1000 {\n				p.Cancel()\n			}\n"))
cx("rwc-own", "C37", (PL, "	p.runWithContext(ctx, cancel)\n", "	ctx, cancel = context.WithCancel(ctx)\n	p.runWithContext(ctx, cancel)\n"))
cx("rwc-cancel", "C37", (PL, "	p.runWithContext(ctx, cancel)\n", "	defer cancel()\n	p.runWithContext(ctx, cancel)\n"))
cx("ok-ctx-nil", "", (PL, "	return p.ctx\n", "	if p.ctx == nil {\n		return context.Background()\n	}\n	return p.ctx\n"))
cx("ok-closure", "", (PL, "	defer cancel()\n	p.Run", "	defer func() {\n		cancel()\n	}()\n	p.Run"))
cx("ok-todo", "", (PL, "	ctx, cancel := context.WithCancel(context.Background())\n	defer", "	background := context.Background()\n	ctx, cancel := context.WithCancel(background)\n	defer"))
cx("ok-direct", "", (PL, "	p.RunWithContext(ctx, cancel)\n}", "	p.runWithContext(ctx, cancel)\n}"))
cx("ok-two", "", (PL, ST, "	p.ctx = ctx\n	p.cancel = cancel\n"))
cx("ok-setctx", "", (PL, ST, "	p.setContext(ctx, cancel)\n"), (PL, "// Run initiates pipeline execution by calling\n", "func (p *Pipeline[T]) setContext(ctx context.Context, cancel context.CancelFunc) {\n	p.ctx, p.cancel = ctx, cancel\n}\n\n// Run initiates pipeline execution by calling\n"))
cx("ok-notify-snap", "", (PL, NT, "	notifiers := p.notifiers\n	p.notifiers = nil\n	for _, notifier := range notifiers {\n		go notifier()\n	}\n"))
cx("ok-notify-clear", "", (PL, NT, "	for _, notifier := range p.notifiers {\n		go notifier()\n	}\n	p.notifiers = nil\n"))
cx("ok-notify-index", "", (PL, NT, "	for i := 0; i < len(p.notifiers); i++ {\n		notify := p.notifiers[i]\n		p.notifiers[i] = nil\n		go notify()\n	}\n"))
cx("ok-notify-wrap", "", (PL, "		go notifier()\n", "		go func() { notifier() }()\n"))
cx("ok-notify-if", "", (PL, NT, "	if len(p.notifiers) > 0 {\n		for _, notifier := range p.notifiers {\n			go notifier()\n		}\n		clear(p.notifiers)\n	}\n"))
cx("ok-notify-var", "", (PL, "	p.notifiers = append(p.notifiers, f)", "	notifiers := append(p.notifiers, f)\n	p.notifiers = notifiers"))
cx("ok-cancel-guard", "", (PL, "	p.cancel()\n}", "	if p.cancel != nil {\n		p.cancel()\n	}\n}"))
cx("ok-cancel-local", "", (PL, "	p.cancel()\n}", "	cancel := p.cancel\n	cancel()\n}"))
# C38: loops end
def te(name, want, *e): m("te-" + name, want, *e)
MS = "psort/mergesort.go"
te("merge-stuck", "C38", (PL, "			} else {\n				index++\n			}\n		}\n		if dataSize", "			} else if index == 0 {\n				index++\n			}\n		}\n		if dataSize"))
te("begin-stuck", "C38", (PL, "			p.nodes = slices.Delete(p.nodes, index, index+1)\n		}\n	}\n	if p.Err", "			p.nodes = slices.Delete(p.nodes, index, index)\n		}\n	}\n	if p.Err"))
te("tr-stuck", "C38", (TR, "			} else {\n				index++\n			}\n", "			} else {\n				index += 0\n			}\n") if False else (TR, "			node.next.nodes = slices.Delete(node.next.nodes, index+1, index+2)\n		} else {\n			index++\n", "			node.next.nodes = slices.Delete(node.next.nodes, index+1, index+2)\n		} else {\n			index += 0\n"))
te("tr-back", "C38", (TR, "			node.next.nodes = slices.Delete(node.next.nodes, index+1, index+2)\n", "			node.next.nodes[index+1] = node.next.nodes[index]\n"))
te("so-inner", "C38", (PL, "			for index = index - 1; index >= 0; index-- {", "			for index = index - 1; index >= 0; {"))
te("bs-low", "C38", (MS, "			low = mid + 1\n", "			low = mid\n", "all"))
te("bs-high", "C38", (MS, "		mid := (low + high) / 2\n", "		mid := (low + high + 1) / 2\n", "all"))
te("smerge-scan1", "C38", (MS, "		for (p1 <= r1) && !T.less(p2, p1) {\n			p1++\n		}\n", "		if (p1 <= r1) && !T.less(p2, p1) {\n			p1++\n		}\n") if False else (MS, "		for (p2 <= r2) && T.less(p2, p1) {\n			p2++\n		}\n", "		for (p2 < r2) && T.less(p2, p1) {\n			p2++\n		}\n"))
te("smerge-strict", "C38", (MS, "!T.less(p2, p1) {\n			p1++", "T.less(p1, p2) {\n			p1++"))
te("smerge-noend", "C11", (MS, "		if p2 > r2 {\n			A.assign(p3, p1, r1+1-p1)\n			return\n		}\n", ""))
te("qs-scan", "", ("psort/quicksort.go", "					if i == j {\n						break outer\n					}\n					i++\n", "					if i == j {\n						break outer\n					}\n					if i < index+size {\n						i++\n					}\n"))
te("stash-run", "C38", (SQ, "							delete(stash, run)\n", "							run--\n"))
te("src-fetched", "C26", ("pipeline/source.go", "	for fetched < n {", "	for n > 0 {"))
# not recognised: a walk that cuts off the first element
if False: te("ok-count", "", (PL, "	for _, node := range p.nodes {\n		node.End()\n	}\n	if err", "	for left := p.nodes; len(left) > 0; left = left[1:] {\n		left[0].End()\n	}\n	if err"))
te("ok-bs", "", (MS, "		mid := (low + high) / 2\n", "		mid := low + (high-low)/2\n", "all"))
te("ok-feed-rec", "", ("pipeline/filter.go", "	for _, filter := range filters {", "	for i := 0; i != len(filters); i++ {\n		filter := filters[i]"))
te("ok-merge-while", "", (PL, "		for index := 0; index < len(p.nodes)-1; {\n			if p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes = slices.Delete(p.nodes, index+1, index+2)\n			} else {\n				index++\n			}\n		}\n", "		for index := 0; index < len(p.nodes)-1; index++ {\n			for index < len(p.nodes)-1 && p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes = slices.Delete(p.nodes, index+1, index+2)\n			}\n		}\n"))
if False: te("ok-dec", "", (PL, "	for i, notifier := range p.notifiers {\n		go notifier()\n		p.notifiers[i] = nil\n	}\n", "	for len(p.notifiers) > 0 {\n		notifier := p.notifiers[0]\n		p.notifiers = p.notifiers[1:]\n		go notifier()\n	}\n"))

# Compacting the list of nodes in place.
MLOOP = "		for index := 0; index < len(p.nodes)-1; {\n			if p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes = slices.Delete(p.nodes, index+1, index+2)\n			} else {\n				index++\n			}\n		}\n"
BLOOP = "	for index := 0; index < len(p.nodes); {\n		if p.nodes[index].Begin(p, index, &filteredSize) {\n			index++\n		} else {\n			p.nodes = slices.Delete(p.nodes, index, index+1)\n		}\n	}\n"
IMP = ("	\"slices\"\n", "")
def cm(name, want, merge, begin=None):
    RUN = "// Run initiates pipeline execution by calling\n"
    e = [(PL, MLOOP, "		p.mergeNodes()\n")]
    h = "func (p *Pipeline[T]) mergeNodes() {\n" + merge + "}\n\n"
    if begin:
        e += [(PL, BLOOP, "	p.beginNodes(&filteredSize)\n"), (PL,) + IMP]
        h += "func (p *Pipeline[T]) beginNodes(size *int) {\n" + begin + "}\n\n"
    m("cm-" + name, want, *e, (PL, RUN, h + RUN))
MIN = """	last := 0
	for index := 1; index < len(p.nodes); index++ {
		if !p.nodes[last].TryMerge(p.nodes[index]) {
			last++
			p.nodes[last] = p.nodes[index]
		}
	}
	p.nodes = p.nodes[:last+1]
"""
MCNT = """	count := 1
	for _, node := range p.nodes[1:] {
		if p.nodes[count-1].TryMerge(node) {
			continue
		}
		p.nodes[count] = node
		count++
	}
	p.nodes = p.nodes[:count]
"""
MAPP = """	merged := p.nodes[:1]
	for _, node := range p.nodes[1:] {
		if !merged[len(merged)-1].TryMerge(node) {
			merged = append(merged, node)
		}
	}
	p.nodes = merged
"""
BIN = """	kept := 0
	for _, node := range p.nodes {
		if node.Begin(p, kept, size) {
			p.nodes[kept] = node
			kept++
		}
	}
	p.nodes = p.nodes[:kept]
"""
BAPP = """	var kept []Node[T]
	for _, node := range p.nodes {
		if node.Begin(p, len(kept), size) {
			kept = append(kept, node)
		}
	}
	p.nodes = kept
"""
def r1(s, a, b):
    assert s.count(a) >= 1, a
    return s.replace(a, b, 1)
cm("ok-inplace", "", MIN, BIN)
cm("ok-count", "", MCNT, BIN)
cm("ok-append", "", MAPP, BAPP)
cm("ok-fresh", "", r1(MAPP, "p.nodes[:1]\n", "append([]Node[T](nil), p.nodes[0])\n"), BAPP)
cm("ok-last", "", r1(MIN, "	p.nodes = p.nodes[:last+1]\n", "	p.nodes = p.nodes[:last+1:last+1]\n"), BIN)
cm("off", "C31", r1(MIN, "p.nodes[:last+1]", "p.nodes[:last]"), BIN)
cm("nostore", "C31", r1(MIN, "			p.nodes[last] = p.nodes[index]\n", ""), BIN)
cm("noinc", "C31", r1(MIN, "			last++\n", ""), BIN)
cm("prev", "C31", r1(MIN, "p.nodes[last].TryMerge(p.nodes[index])", "p.nodes[index-1].TryMerge(p.nodes[index])"), BIN)
cm("swap", "C31", r1(MIN, "p.nodes[last].TryMerge(p.nodes[index])", "p.nodes[index].TryMerge(p.nodes[last])"), BIN)
cm("nocut", "C31", r1(MIN, "	p.nodes = p.nodes[:last+1]\n", ""), BIN)
cm("cntstart", "C31", r1(MCNT, "range p.nodes[1:]", "range p.nodes[min(2, len(p.nodes)):]"), BIN)
cm("cntneg", "C31", r1(MCNT, "if p.nodes[count-1].TryMerge(node) {", "if !p.nodes[count-1].TryMerge(node) {"), BIN)
cm("appfirst", "C31", r1(MAPP, "merged[len(merged)-1].Try", "merged[0].Try"), BAPP)
cm("applose", "C31", r1(MAPP, "	p.nodes = merged\n", "	p.nodes = merged[:1]\n"), BAPP)
cm("appempty", "C31", r1(MAPP, "p.nodes[:1]\n", "p.nodes[:1:1]\n	if len(p.nodes) > 2 {\n		merged = p.nodes[:2]\n	}\n"), BAPP)
cm("beginlose", "C31", MAPP, r1(BAPP, "		if node.Begin(p, len(kept), size) {", "		if node.Begin(p, len(kept), size) && len(kept) < 8 {"))
cm("beginidx", "C31", MAPP, r1(BIN, "node.Begin(p, kept, size)", "node.Begin(p, 0, size)"))
cm("begincut", "C31", MAPP, r1(BIN, "p.nodes[:kept]", "p.nodes[:max(kept, 1)]"))
cm("beginnil", "C31", MAPP, r1(BIN, "			p.nodes[kept] = node\n", ""))

# C39: parts run concurrently
def co(name, want, *edits): m("co-" + name, want, *edits)
GO = """			go func() {
				defer func() {
					p = internal.WrapPanic(recover())"""
co("no-go", "C39", (P, GO, GO.replace("go func", "func"), 0))
co("no-go2", "C39", (P, GO, GO.replace("go func", "func"), 3))
co("never", "C39", (P, "if batchSize*half >= high-low {", "if true || batchSize*half >= high-low {", 1))
co("half", "C39", (P, "half := n / 2\n			mid", "half := n\n			mid", 2))
co("size", "C39", (P, "batchSize := ((high - low - 1) / n) + 1", "batchSize := (high - low - 1) / 2 + 1", 2))
co("small", "C39", (P, "if batchSize*half >= high-low {", "if high-low < 4 || batchSize*half >= high-low {", 2))
co("ok-mid", "", (P, "if batchSize*half >= high-low {", "if mid >= high {", 1))
co("ok-rest", "", (P, "recur(mid, high, n-half)", "rest := n - half\n				recur(mid, high, rest)", 0))

# C40, C41: parallel nodes, locks around user code
def lk(name, want, *edits): m("lk-" + name, want, *edits)
PN, LP, SN, PP = "pipeline/parnode.go", "pipeline/lparnode.go", "pipeline/strictordnode.go", "pipeline/pipeline.go"
PFEED = "			feed(p, node.receivers, index, seqNo, data)\n"
PWG = "	waitGroup  sync.WaitGroup\n"
lk("par-mutex", "C40 C41", (PN, PWG, PWG + "	mu sync.Mutex\n"), (PN, PFEED, "			node.mu.Lock()\n			defer node.mu.Unlock()\n" + PFEED))
lk("par-sem", "C40", (PN, PWG, PWG + "	sem chan bool\n"), (PN, "	node.filters = nil\n	keep =", "	node.filters = nil\n	node.sem = make(chan bool, 8)\n	keep ="), (PN, PFEED, "			node.sem <- true\n			defer func() { <-node.sem }()\n" + PFEED))
lk("par-sem2", "C40", (PN, PWG, PWG + "	sem chan bool\n"), (PN, "	node.filters = nil\n	keep =", "	node.filters = nil\n	node.sem = make(chan bool, 8)\n	keep ="), (PN, "	node.waitGroup.Add(1)\n", "	node.waitGroup.Add(1)\n	node.sem <- true\n"), (PN, "		defer node.waitGroup.Done()\n", "		defer node.waitGroup.Done()\n		defer func() { <-node.sem }()\n"))
lk("par-sync", "C40", (PN, "	go func() {", "	func() {"))
lk("par-half", "C40", (PN, "	go func() {", "	run := func() {"), (PN, "	}()\n}", "	}\n	if seqNo%2 == 0 {\n		go run()\n	} else {\n		run()\n	}\n}"))
lk("ok-par-run", "", (PN, "	go func() {", "	run := func() {"), (PN, "	}()\n}", "	}\n	go run()\n}"))
lk("ok-par-quick", "", (PN, "	node.waitGroup.Add(1)\n", "	if p.ctx.Err() != nil {\n		return\n	}\n	node.waitGroup.Add(1)\n"))
LFEED = "						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n"
lk("lpar-one", "C33 C40", (LP, "for range node.limit {", "for range min(node.limit, 1) {"), (LP, "node.waitGroup.Add(node.limit)", "node.waitGroup.Add(min(node.limit, 1))"))
lk("lpar-held", "C40 C41", (LP, "	channel   ", "	mu        sync.Mutex\n	channel   "), (LP, LFEED, "						node.mu.Lock()\n" + LFEED + "						node.mu.Unlock()\n"))
lk("lpar-held-ord", "C40 C41", (LP, "							node.cond.L.Unlock()\n							node.cond.Broadcast()\n						}\n" + LFEED, "							node.cond.Broadcast()\n						}\n" + LFEED + "						if node.ordered {\n							node.cond.L.Unlock()\n						}\n"))
lk("lpar-feed", "C40", (LP, "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch[T]{index, seqNo, data}:\n		return\n	}\n}", "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch[T]{index, seqNo, data}:\n		return\n	default:\n		feed(p, node.receivers, index, seqNo, data)\n	}\n}"))
lk("strict-held", "C41", (SN, "					node.cond.L.Unlock()\n					node.cond.Broadcast()\n					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n", "					node.cond.Broadcast()\n					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n					node.cond.L.Unlock()\n"))
lk("ok-strict-bcast", "", (SN, "					node.cond.L.Unlock()\n					node.cond.Broadcast()\n", "					node.cond.Broadcast()\n					node.cond.L.Unlock()\n"))
lk("cancel", "C41", (PP, "		p.err = err\n		p.mutex.Unlock()\n		if p.cancel != nil {\n			p.cancel()\n		}\n", "		p.err = err\n		if p.cancel != nil {\n			p.cancel()\n		}\n		p.mutex.Unlock()\n"))
lk("cancel2", "C41", (PP, "	p.cancel()\n}\n\n// Add", "	p.mutex.RLock()\n	defer p.mutex.RUnlock()\n	p.cancel()\n}\n\n// Add"))
lk("ok-seterr", "", (PP, "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n		if p.cancel != nil {\n			p.cancel()\n		}\n		return true\n	}\n	p.mutex.Unlock()\n	return false\n", "	set := func() bool {\n		p.mutex.Lock()\n		defer p.mutex.Unlock()\n		if p.err != nil {\n			return false\n		}\n		p.err = err\n		return true\n	}()\n	if set && p.cancel != nil {\n		p.cancel()\n	}\n	return set\n"))
lk("begin", "C41", (PP, "		if p.nodes[index].Begin(p, index, &filteredSize) {", "		p.mutex.Lock()\n		keep := p.nodes[index].Begin(p, index, &filteredSize)\n		p.mutex.Unlock()\n		if keep {"))
lk("prepare", "C41", (PP, "	dataSize := p.source.Prepare(p.ctx)\n", "	p.mutex.Lock()\n	dataSize := p.source.Prepare(p.ctx)\n	p.mutex.Unlock()\n"))
lk("srcerr", "C41", (PP, "	if err := p.source.Err(); err != nil {\n		p.mutex.Lock()\n		if p.err == nil {\n			p.err = err\n		}\n		p.mutex.Unlock()\n	}\n", "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = p.source.Err()\n	}\n	p.mutex.Unlock()\n"))

# closed channels instead of wait groups
SND = ((SN, "	waitGroup  sync.WaitGroup\n", "	done       chan struct{}\n"), (SN, "		node.waitGroup.Add(1)\n", "		node.done = make(chan struct{})\n"))
SNC = ((SN, "defer node.waitGroup.Done()", "defer close(node.done)"),)
SNW = ((SN, "	node.waitGroup.Wait()\n", "	<-node.done\n"),)
lk("ok-strict-chan", "", *SND, *SNC, *SNW)
lk("strict-chan-early", "C22", *SND, (SN, "defer node.waitGroup.Done()", "close(node.done)"), *SNW)
lk("strict-chan-nowait", "C22", *SND, *SNC, (SN, "	node.waitGroup.Wait()\n", ""))
RWG = "	var wg sync.WaitGroup\n	wg.Add(1)\n	defer wg.Wait()\n	if len(moreFunctions) == 1 {\n		go func() {\n			defer func() {\n				p = internal.WrapPanic(recover())\n				wg.Done()\n			}()\n			right = moreFunctions[0]()\n		}()\n		left = firstFunction()\n	} else {\n		half := (len(moreFunctions) + 1) / 2\n		go func() {\n			defer func() {\n				p = internal.WrapPanic(recover())\n				wg.Done()\n			}()\n			right = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)\n		}()\n		left = Reduce(join, firstFunction, moreFunctions[:half]...)\n	}\n	wg.Wait()\n"
RCH = RWG.replace("	var wg sync.WaitGroup\n	wg.Add(1)\n	defer wg.Wait()\n", "	done := make(chan struct{})\n	defer func() { <-done }()\n").replace("wg.Done()", "close(done)").replace("wg.Wait()", "<-done")
lk("ok-reduce-chan", "", (P, RWG, RCH))
lk("reduce-chan-order", "C04", (P, RWG, RCH.replace("p = internal.WrapPanic(recover())\n				close(done)", "close(done)\n				p = internal.WrapPanic(recover())")))
lk("reduce-chan-nodefer", "C01", (P, RWG, RCH.replace("	defer func() { <-done }()\n", "")))
lk("reduce-chan-nowait", "C03", (P, RWG, RCH.replace("	}\n	<-done\n", "	}\n")))

# looking for the last strictly ordered node from the front
FWD_OLD = '''	for index := len(p.nodes) - 1; index >= 0; index-- {
		if p.nodes[index].StrictOrd() {
			for index = index - 1; index >= 0; index-- {
				switch node := p.nodes[index].(type) {
				case *seqnode[T]:
					node.kind = Ordered
				case *lparnode[T]:
					node.makeOrdered()
				}
			}
			break
		}
	}
'''
FWD = '''	last := -1
	for index, node := range p.nodes {
		if node.StrictOrd() {
			last = index
		}
	}
	for index := 0; index < last; index++ {
		switch node := p.nodes[index].(type) {
		case *seqnode[T]:
			node.kind = Ordered
		case *lparnode[T]:
			node.makeOrdered()
		}
	}
'''
lk("ok-fwd", "", (PP, FWD_OLD, FWD))
lk("ok-fwd-end", "", (PP, FWD_OLD, FWD.replace("-1", "0").replace("= index\n", "= index + 1\n").replace("< last", "< last-1")))
lk("fwd-break", "C24", (PP, FWD_OLD, FWD.replace("last = index\n", "last = index\n			break\n")))
lk("fwd-first", "C24", (PP, FWD_OLD, FWD.replace("if node.StrictOrd()", "if last < 0 && node.StrictOrd()")))
lk("fwd-short", "C24", (PP, FWD_OLD, FWD.replace("< last;", "< last-1;")))
lk("fwd-part", "C24", (PP, FWD_OLD, FWD.replace("range p.nodes {", "range p.nodes[1:] {")))

# a list of all functions for Reduce
RED_OLD = 'func Reduce[T any](\n\tjoin func(x, y T) T,\n\tfirstFunction func() T,\n\tmoreFunctions ...func() T,\n) T {\n\tif len(moreFunctions) == 0 {\n\t\treturn firstFunction()\n\t}\n\tvar left, right T\n\tvar p interface{}\n\tvar wg sync.WaitGroup\n\twg.Add(1)\n\tdefer wg.Wait()\n\tif len(moreFunctions) == 1 {\n\t\tgo func() {\n\t\t\tdefer func() {\n\t\t\t\tp = internal.WrapPanic(recover())\n\t\t\t\twg.Done()\n\t\t\t}()\n\t\t\tright = moreFunctions[0]()\n\t\t}()\n\t\tleft = firstFunction()\n\t} else {\n\t\thalf := (len(moreFunctions) + 1) / 2\n\t\tgo func() {\n\t\t\tdefer func() {\n\t\t\t\tp = internal.WrapPanic(recover())\n\t\t\t\twg.Done()\n\t\t\t}()\n\t\t\tright = Reduce(join, moreFunctions[half], moreFunctions[half+1:]...)\n\t\t}()\n\t\tleft = Reduce(join, firstFunction, moreFunctions[:half]...)\n\t}\n\twg.Wait()\n\tif p != nil {\n\t\tpanic(p)\n\t}\n\treturn join(left, right)\n}\n\n'
RED_LIST = 'func Reduce[T any](\n\tjoin func(x, y T) T,\n\tfirstFunction func() T,\n\tmoreFunctions ...func() T,\n) T {\n\tfunctions := make([]func() T, 0, len(moreFunctions)+1)\n\tfunctions = append(functions, firstFunction)\n\tfunctions = append(functions, moreFunctions...)\n\treturn reduceAll(join, functions)\n}\n\nfunc reduceAll[T any](join func(x, y T) T, functions []func() T) T {\n\tif len(functions) == 1 {\n\t\treturn functions[0]()\n\t}\n\thalf := (len(functions) + 1) / 2\n\tvar left, right T\n\tvar p interface{}\n\tvar wg sync.WaitGroup\n\twg.Add(1)\n\tdefer wg.Wait()\n\tgo func() {\n\t\tdefer func() {\n\t\t\tp = internal.WrapPanic(recover())\n\t\t\twg.Done()\n\t\t}()\n\t\tright = reduceAll(join, functions[half:])\n\t}()\n\tleft = reduceAll(join, functions[:half])\n\twg.Wait()\n\tif p != nil {\n\t\tpanic(p)\n\t}\n\treturn join(left, right)\n}\n\n'
lk("ok-reduce-list", "", (P, RED_OLD, RED_LIST))
lk("reduce-list-half", "C02", (P, RED_OLD, RED_LIST.replace("half := (len(functions) + 1) / 2", "half := len(functions)/2 + 1")))
lk("reduce-list-order", "C03", (P, RED_OLD, RED_LIST.replace("	functions = append(functions, firstFunction)\n	functions = append(functions, moreFunctions...)\n", "	functions = append(functions, moreFunctions...)\n	functions = append(functions, firstFunction)\n")))
lk("reduce-list-lost", "C02", (P, RED_OLD, RED_LIST.replace("append(functions, moreFunctions...)", "append(functions, moreFunctions[:len(moreFunctions)-1]...)")))
m("lk-ok-pool-once", "", (G, "	result := &sync.Pool{\n		New: func() any {\n			if p.New == nil {\n				return (*T)(nil)\n			}\n			return p.New()\n		},\n	}\n	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()\n}", "	p.syncPool.CompareAndSwap(nil, &sync.Pool{New: p.create})\n	return p.getSyncPool1()\n}\n\nfunc (p *Pool[T]) getSyncPool1() *sync.Pool {\n	for {\n		if result := p.syncPool.Load(); result != nil {\n			return result\n		}\n		p.syncPool.CompareAndSwap(nil, &sync.Pool{New: p.create})\n	}\n}\n\nfunc (p *Pool[T]) create() any {\n	if f := p.New; f != nil {\n		return f()\n	}\n	return (*T)(nil)\n}"))
m("lk-pool-spin", "C38", (G, "	if p.syncPool.CompareAndSwap(nil, result) {\n		return result\n	}\n	return p.syncPool.Load()", "	for !p.syncPool.CompareAndSwap(nil, result) {\n		runtime.Gosched()\n	}\n	return result"), (G, '	"sync"\n', '	"runtime"\n	"sync"\n'))
