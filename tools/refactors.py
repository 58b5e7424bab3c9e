# Behaviour-preserving edits: every check must stay quiet on them (run: python3 tools/refactors.py GROUP [props])
import os, shutil, subprocess, sys, time
I = "include/bss-util/"; R = []
def r(group, props, f, old, new): R.append((group, props.split(), I + f, old, new))
# --- group 1
r(1, "A01 A03", "DynArray.h", "    inline void SetLength(CT length)\n    {\n      if(length < _length) BASE::_setLength(_array, _length, length);\n      if(length > _capacity) BASE::_setCapacity(length, _length);\n      if(length > _length) BASE::_setLength(_array, _length, length);\n      _length = length;\n",
  "    inline void SetLength(CT length)\n    {\n      const CT old = _length;\n      if(length < old)\n        BASE::_setLength(_array, old, length);\n      else\n      {\n        if(length > _capacity)\n          BASE::_setCapacity(length, old);\n        if(length > old)\n          BASE::_setLength(_array, old, length);\n      }\n      _length = length;\n")
r(1, "A01 A03", "DynArray.h", "CT Add(const T& item) { _checkSize(); new(_array + _length) T(item); return _length++; }", "CT Add(const T& item) { _checkSize(); T* slot = _array + _length; new(slot) T(item); CT at = _length; ++_length; return at; }")
r(1, "A01 A03", "Array.h", "        for(CType i = n; i < old; ++i)\n          dest[i].~T();\n", "        CType k = n;\n        while(k < old)\n        {\n          dest[k].~T();\n          ++k;\n        }\n")
r(1, "A01 A03", "Array.h", "        for(CType i = 0; i < n; ++i)\n          new(dest + i) T(std::move(src[i]));\n", "        T* to = dest;\n        for(T* from = src; from != src + n; ++from, ++to)\n          new(to) T(std::move(*from));\n")
r(1, "A01 A03", "Array.h", "        for(CType i = 0; i < n; ++i)\n          new(dest + i) T(src[i]);\n", "        for(CType i = n; i > 0; --i)\n          new(dest + (n - i)) T(src[n - i]);\n")
r(1, "A02", "DynArray.h", "      for(CT i = start + 1; i < end; ++i)\n        c += BitCount<STORE>(_array[i]);\n", "      CT i = start;\n      while(++i < end)\n        c += BitCount<STORE>(_array[i]);\n")
r(1, "A02", "DynArray.h", "        _array[i - 1] = (_array[i - 1] & ((STORE)(~0) >> 1)) | ((_array[i] & 1) << MOD_AMT);\n        _array[i] >>= 1;\n", "        STORE carry = (STORE)((_array[i] & 1) << MOD_AMT);\n        _array[i] >>= 1;\n        _array[i - 1] = (_array[i - 1] & ((STORE)(~0) >> 1)) | carry;\n")
r(1, "A02", "DynArray.h", "      for(CT i = _length; i < length; ++i) GetBit(i) = false;\n", "      CT i = _length;\n      while(i < length)\n      {\n        GetBit(i) = false;\n        ++i;\n      }\n")
r(1, "A04", "ArraySort.h", "      T swap;\n      _array[index] = item;\n      while(index > 0 && CFunc(_array[index - 1], _array[index]) > 0)\n      { //we do a swap here and hope that the compiler is smart enough to optimize it\n        swap = _array[index];\n        _array[index] = _array[index - 1];\n        _array[--index] = swap;\n      }\n",
  "      T swap;\n      _array[index] = item;\n      for(; index > 0; --index)\n      {\n        if(CFunc(_array[index - 1], _array[index]) <= 0)\n          break;\n        swap = _array[index - 1];\n        _array[index - 1] = _array[index];\n        _array[index] = swap;\n      }\n")
r(1, "A04 A05", "algo.h", "          c2 = (c >> 1); // >> 1 is valid here because we check to see that c > 0 beforehand.\n          m = first + c2;\n", "          c2 = (CT_)(c / 2);\n          m = c2 + first;\n")
r(1, "A04 A05", "algo.h", "      if((r = (*CompF)(arr[m], data)) < 0) // This is faster than a switch statement\n        f = m + 1;\n      else if(r > 0)\n        l = m - 1;\n      else\n        return m;\n", "      r = (*CompF)(arr[m], data);\n      if(!r)\n        return m;\n      if(r < 0)\n        f = m + 1;\n      else\n        l = m - 1;\n")
r(1, "A06", "ArrayCircular.h", "      assert(_length > 0);\n      --_length;\n      T r(std::move(_array[_cur]));\n      _array[_cur].~T();\n      _cur = bssMod<CT>(_cur - 1, _capacity);\n      return r;", "      assert(_length > 0);\n      T& slot = _array[_cur];\n      T r(std::move(slot));\n      slot.~T();\n      _cur = (_cur == 0) ? _capacity - 1 : _cur - 1;\n      _length -= 1;\n      return r;")
r(1, "A07", "BinaryHeap.h", "      while(k > 0)\n      {\n        parent = CBH_PARENT(k);\n        \n        if(CFunc(val, _array[parent]) < 0)\n          break;\n", "      for(; k > 0; k = parent)\n      {\n        parent = CBH_PARENT(k);\n\n        if(CFunc(val, _array[parent]) < 0)\n          break;\n")
r(1, "A07", "BinaryHeap.h", "        MFUNC::MFunc(_array[k], k, p);\n        k = parent;\n      }\n", "        MFUNC::MFunc(_array[k], k, p);\n      }\n")
r(1, "A07", "BinaryHeap.h", "      if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation\n      if(index < _length - 1)", "      if(index >= _length) return false;\n      const CT last = _length - 1;\n      if(index != last)")
r(1, "A11", "BitStream.h", "      for(i = bits; i >= 8; i -= 8)\n      {\n        _buf |= (d[k] << _woffset);\n        _base->put(_buf);\n        _buf = (d[k++] >> (8 - _woffset));\n      }\n", "      i = bits;\n      while(i >= 8)\n      {\n        uint8_t cur = d[k];\n        _base->put((uint8_t)(_buf | (cur << _woffset)));\n        _buf = (cur >> (8 - _woffset));\n        ++k;\n        i -= 8;\n      }\n")
r(1, "A10", "Rational.h", "      T gcd = GCD<T>(_n, _d);\n      _n /= gcd;\n      _d /= gcd;\n\n      if(_d < 0)\n      {\n        _d = -_d;\n        _n = -_n;\n      }", "      if(_d < 0)\n      {\n        _d = -_d;\n        _n = -_n;\n      }\n\n      const T gcd = GCD<T>(_n, _d);\n      _d /= gcd;\n      _n /= gcd;")
r(1, "A12", "RefCounter.h", "      if(--_refs > 0)\n        return _refs;\n\n      DestroyThis();\n      return 0;", "      int left = --_refs;\n      if(left <= 0)\n      {\n        DestroyThis();\n        left = 0;\n      }\n      return left;")
r(1, "A12", "RefCounter.h", "      if(_p != 0) \n        _p->Drop();\n\n      _p = right; \n      return *this; ", "      T* old = _p;\n      _p = right;\n      if(old)\n        old->Drop();\n      return *this;")
r(1, "A13", "LLBase.h", "    node->prev = 0;\n    node->next = root;\n    if(root) root->prev = node;\n    else last = node;\n    root = node;\n", "    T* first = root;\n    root = node;\n    node->next = first;\n    node->prev = 0;\n    if(!first) last = node;\n    else first->prev = node;\n")
r(1, "A13", "LinkedArray.h", "      CT_ i = _ref.Capacity();\n      while(i > start) //this trick lets us run backwards without worrying about the unsigned problem.\n        _addFreeList(--i);\n", "      for(CT_ i = _ref.Capacity(); i > start; --i)\n        _addFreeList(i - 1);\n")
r(1, "A14", "DisjointSet.h", "      Ty t;\n      if(x != r)\n      { // Do path compression\n        t = _array[x];\n\n        while(t != r)\n        {\n          _array[x] = r;\n          x = t;\n          t = _array[t];\n        }\n      }\n", "      if(static_cast<Ty>(x) != r)\n      { // Do path compression\n        for(Ty t = _array[x]; t != r; t = _array[x])\n        {\n          _array[x] = r;\n          x = t;\n        }\n      }\n")
r(1, "A14", "DisjointSet.h", "      for(T i = 0; i < _capacity; ++i)\n      {\n        if(Find(i) == set) // Does this element belong to our set?\n          target[j++] = i; // If so, add it\n      }\n", "      T i = 0;\n      while(i < _capacity)\n      {\n        if(Find(i) == set)\n        {\n          target[j] = i;\n          ++j;\n        }\n        ++i;\n      }\n")
r(1, "A16", "RWLock.h", "      while(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set\n      {\n        if(l.fetch_sub(ONE_READER, std::memory_order_release)&WFLAG) // If the writer flag is set, release our lock to let the writer through\n          while(l.load(std::memory_order_relaxed)&WFLAG); // Wait until the writer flag is no longer set before looping for another attempt\n      }\n",
  "      for(;;)\n      {\n        size_t seen = l.fetch_add(ONE_READER, std::memory_order_acquire);\n        if(!(seen & WFLAG))\n          break;\n        l.fetch_sub(ONE_READER, std::memory_order_release);\n        while(l.load(std::memory_order_relaxed)&WFLAG);\n      }\n")
r(1, "A16", "RWLock.h", "      if(l.fetch_add(ONE_READER, std::memory_order_acquire)&WFLAG) // Oppurtunistically acquire a read lock and check to see if the writer flag is set\n      {\n        l.fetch_sub(ONE_READER, std::memory_order_release);\n        return false;\n      }\n\n      //assert(debugEmplace());\n      return true;", "      const bool writer = (l.fetch_add(ONE_READER, std::memory_order_acquire) & WFLAG) != 0;\n      if(writer)\n        l.fetch_sub(ONE_READER, std::memory_order_release);\n      return !writer;")
# --- group 2
r(2, "A01", "Array.h", "        memmove(dest + index + 1, dest + index, sizeof(T)*(length - index));\n        new(dest + index) T(std::forward<U>(item));", "        T* at = dest + index;\n        memmove(at + 1, at, (length - index) * sizeof(T));\n        new(at) T(std::forward<U>(item));")
r(2, "A01 A03", "Array.h", "      if(dest == nullptr || src == nullptr || !n)\n        return;\n      assert(dest != src);\n\n      if constexpr(ArrayType == ARRAY_SIMPLE)\n        memcpy(dest, src, sizeof(T)*n);", "      if(!n || !dest || !src)\n        return;\n      assert(dest != src);\n\n      if constexpr(ArrayType == ARRAY_SIMPLE)\n      {\n        for(CType i = 0; i < n; ++i)\n          dest[i] = src[i];\n      }")
r(2, "A01 A03", "DynArray.h", "      BASE::_copy(_array, copy._array, copy._length);\n      _length = copy._length;\n      return *this;\n    }\n    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength", "      _length = copy._length;\n      BASE::_copy(_array, copy._array, _length);\n      return *this;\n    }\n    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength")
r(2, "A02", "DynArray.h", "      for(CT i = ind + 1; i < len; ++i)\n      {\n        STORE next = _array[i];\n        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));\n        store = next;\n      }", "      for(CT i = ind + 1; i < len; ++i)\n      {\n        const STORE cur = _array[i];\n        _array[i] = (STORE)((STORE)(cur << 1) | (STORE)(store >> MOD_AMT));\n        store = cur;\n      }")
r(2, "A02", "DynArray.h", "inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }", "inline void Flip() { for(STORE *p = _array, *e = _array + _capacity; p != e; ++p) *p = (STORE)~*p; }")
r(2, "A04 A05", "algo.h", "        while(c > 0)\n        {\n          c2 = (c >> 1); // >> 1 is valid here because we check to see that c > 0 beforehand.\n          m = first + c2;\n\n          //if(!(_Val < *_Mid))\n          if((*CompEQ)((*CompF)(data, arr[m], args...), CompValue))\n          {	// try top half\n            first = m + 1;\n            c -= c2 + 1;\n          }\n          else\n            c = c2;\n        }\n", "        for(; c > 0; c = c2)\n        {\n          c2 = (c >> 1);\n          m = first + c2;\n          bool upper = (*CompEQ)((*CompF)(data, arr[m], args...), CompValue);\n          if(upper)\n          {\n            first = m + 1;\n            c2 = c - c2 - 1;\n          }\n        }\n")
r(2, "A04", "ArraySort.h", "        CT loc;\n\n        if((*CFunc)(item, _array[0]) < 0)\n          loc = 0;\n        else if((*CFunc)(item, _array.Back()) >= 0)\n          loc = _array.Length();\n        else\n          loc = BinarySearchAfter<T, CT, CFunc>(_array, _array.Length(), std::forward<U>(item));\n\n        return loc;", "        if((*CFunc)(item, _array.Back()) >= 0)\n          return _array.Length();\n        if((*CFunc)(item, _array[0]) < 0)\n          return 0;\n        return BinarySearchAfter<T, CT, CFunc>(_array, _array.Length(), std::forward<U>(item));")
r(2, "A06", "ArrayCircular.h", "      _cur = ((_cur + 1) % _capacity);\n\n      if(_length < _capacity)\n      {\n        new(_array + _cur) T(std::forward<U>(item));\n        ++_length;\n      }\n      else\n        _array[_cur] = std::forward<U>(item);", "      if(++_cur >= _capacity)\n        _cur = 0;\n\n      if(_length == _capacity)\n        _array[_cur] = std::forward<U>(item);\n      else\n      {\n        ++_length;\n        new(_array + _cur) T(std::forward<U>(item));\n      }")
r(2, "A06", "ArrayCircular.h", "CT _modIndex(CT index) const { return bssMod<CT>(_cur - index, _capacity); }", "CT _modIndex(CT index) const { CT at = (_cur - index) % _capacity; return at < 0 ? at + _capacity : at; }")
r(2, "A07", "BinaryHeap.h", "      if(CFunc(_array[index], val) <= 0) //in this case we percolate up\n        PercolateUp(_array, _length, index, std::forward<U>(val), this);\n      else\n        PercolateDown(_array, _length, index, std::forward<U>(val), this);\n", "      const bool down = CFunc(_array[index], val) > 0;\n      if(down)\n        PercolateDown(_array, _length, index, std::forward<U>(val), this);\n      else\n        PercolateUp(_array, _length, index, std::forward<U>(val), this);\n")
r(2, "A07", "BinaryHeap.h", "      CT i;\n\n      for(i = CBH_RIGHT(k); i < length; i = CBH_RIGHT(i))\n      {\n        if(CFunc(_array[i - 1], _array[i]) > 0) // CFunc (left,right) and return true if left > right\n          --i; //left is greater than right so pick that one\n", "      CT i = CBH_RIGHT(k);\n\n      for(; i < length; i = CBH_RIGHT(k))\n      {\n        if(CFunc(_array[i - 1], _array[i]) > 0)\n          i -= 1;\n")
r(2, "A08", "bss_util.h", "    return (i / div) - ((i < 0)&((i%div) != 0)); //", "    T q = i / div;\n    if(i < 0 && (i % div) != 0)\n      --q;\n    return q; //")
r(2, "A08", "bss_util.h", "    for(size_t i = bits; i > 0;)\n    {\n      --i;\n", "    size_t i = bits;\n    while(i-- > 0)\n    {\n")
r(2, "A09", "FixedPt.h", "    return (U(x) << S_Y) / (U)y;", "    const U num = U(x) * (U(1) << S_Y);\n    return (T)(num / (U)y);")
r(2, "A10", "Rational.h", "      T r_n = r._n;\n      T r_d = r._d;\n\n      T g = GCD<T>(_d, r_d);\n      _d /= g;\n      _n = _n * (r_d / g) + r_n * _d;\n", "      const T r_n = r._n, r_d = r._d;\n      T g = GCD<T>(_d, r_d);\n      const T rest = r_d / g;\n      _d /= g;\n      _n = r_n * _d + _n * rest;\n")
r(2, "A11", "BitStream.h", "      for(i = bits; i >= 8; i -= 8)\n      {\n        d[k] = (_base->peek() >> _roffset);\n        _base->get(*((char*)&b));\n        d[k++] |= (_base->peek() << (8 - _roffset));\n      }\n", "      i = bits;\n      while(i >= 8)\n      {\n        uint8_t lo = (uint8_t)(_base->peek() >> _roffset);\n        _base->get(*((char*)&b));\n        d[k] = (uint8_t)(lo | (_base->peek() << (8 - _roffset)));\n        ++k;\n        i -= 8;\n      }\n")
r(2, "A12", "SmartPtr.h", "      _disown(); \n      _p = right._p; \n      _owner = right._owner; // moving a pointer that is not the owner must not make this one delete the object\n      right._owner = false;\n      return *this; ", "      _disown();\n      const bool own = right._owner;\n      right._owner = false;\n      _owner = own;\n      _p = right._p;\n      return *this;")
r(2, "A13", "LLBase.h", "    node->prev = target->prev;\n    node->next = target;\n    if(target->prev != 0) target->prev->next = node;\n    else root = node;\n    target->prev = node;\n", "    T* before = target->prev;\n    if(before) before->next = node;\n    else root = node;\n    target->prev = node;\n    node->next = target;\n    node->prev = before;\n")
r(2, "A13", "LinkedArray.h", "      if(pcur.next == (CT_)-1) _end = cur;\n      else _ref[pcur.next].prev = cur;\n\n      ++_length;\n      return cur;", "      ++_length;\n      if(pcur.next != (CT_)-1)\n        _ref[pcur.next].prev = cur;\n      else\n        _end = cur;\n\n      return cur;")
r(2, "A13", "LinkedList.h", "      LLNode<T>* hold = _createNode(item, target->prev, target);\n      if(target->prev != 0) target->prev->next = hold;\n      else _root = hold;\n      target->prev = hold;\n\n      _incsize(); //increment size by one", "      LLNode<T>* const before = target->prev;\n      LLNode<T>* hold = _createNode(item, before, target);\n      _incsize();\n      target->prev = hold;\n      if(!before) _root = hold;\n      else before->next = hold;\n")
r(2, "A14", "DisjointSet.h", "      Ty r = x;\n      while(_array[r] >= 0)\n        r = _array[r]; // Find set name x belongs to\n", "      Ty r = x;\n      for(Ty up = _array[r]; up >= 0; up = _array[r])\n        r = up;\n")
r(2, "A14", "DisjointSet.h", "      if(w1 > w2)\n      { // Weights are negated, so -w1 < -w2 can be rewritten as w1 > w2\n        _array[set2] += w1;\n        _array[set1] = set2;\n      }\n      else\n      {\n        _array[set1] += w2;\n        _array[set2] = set1;\n      }\n", "      if(w1 <= w2)\n      {\n        _array[set2] = set1;\n        _array[set1] = w1 + w2;\n      }\n      else\n      {\n        _array[set1] = set2;\n        _array[set2] = w1 + w2;\n      }\n")
r(2, "A16", "RWLock.h", "      while(asmbts<size_t>((size_t*)&l, WBIT)); // While the returned value includes the flag bit, another writer is performing an operation\n      while((l.load(std::memory_order_relaxed)&WMASK) > 0); // Wait for any remaining readers to flush\n    }", "      bool taken;\n      do {\n        taken = asmbts<size_t>((size_t*)&l, WBIT);\n      } while(taken);\n      _flush(0);\n    }\n    BSS_FORCEINLINE void _flush(size_t left) noexcept\n    {\n      for(;;)\n      {\n        const size_t readers = l.load(std::memory_order_relaxed) & WMASK;\n        if(readers <= left)\n          return;\n      }\n    }")
r(2, "A16", "RWLock.h", "      while(asmbts<size_t>((size_t*)&l, WBIT)) // Attempt to acquire the write lock\n      {", "      for(;;)\n      {\n        if(!asmbts<size_t>((size_t*)&l, WBIT))\n          break;")
# --- group 3
r(3, "A15", "BlockAlloc.h", "      for(uint8_t* memref = reinterpret_cast<uint8_t*>(chunk) + _alignsize; memref < memend; memref += _sz)\n      {\n", "      uint8_t* memref = reinterpret_cast<uint8_t*>(chunk) + _alignsize;\n      for(; memref < memend; memref += _sz)\n      {\n")
r(3, "A15", "BlockAlloc.h", "      size_t nsize = 0;\n      Node* hold = _root;\n\n      while((_root = hold) != 0)\n      {\n        nsize += hold->size;\n        hold = _root->next;\n        ALIGNEDFREE(_root);\n      }\n", "      size_t nsize = 0;\n\n      while(_root != 0)\n      {\n        Node* hold = _root;\n        _root = hold->next;\n        nsize += hold->size;\n        ALIGNEDFREE(hold);\n      }\n")
r(3, "A15", "GreedyBlockAlloc.h", "      size_t r = _curpos;\n      _curpos += sz;\n      if(_curpos > _root->size)\n", "      size_t r = _curpos;\n      _curpos = r + sz;\n      if(!(_curpos <= _root->size))\n")
r(3, "A15", "GreedyAlloc.h", "        size_t rend = r + sz;\n        root = _root.load(std::memory_order_acquire);\n\n        if(rend >= root->size)\n", "        const size_t rend = r + sz;\n        root = _root.load(std::memory_order_acquire);\n\n        if(root->size <= rend)\n")
r(3, "A15", "GreedyAlloc.h", "      while(root)\n      {\n        hold = root->next;\n        nsize += root->size;\n        ALIGNEDFREE(root);\n        root = hold;\n      }\n", "      for(; root; root = hold)\n      {\n        nsize += root->size;\n        hold = root->next;\n        ALIGNEDFREE(root);\n      }\n")
# --- group 4: library block moves rewritten as loops
r(4, "A01", "Array.h", "        memmove(dest + index + 1, dest + index, sizeof(T)*(length - index));\n", "        for(CType i = length; i > index; --i)\n          dest[i] = dest[i - 1];\n")
r(4, "A01", "Array.h", "        memmove(dest + index, dest + index + 1, sizeof(T)*(length - index - 1));\n", "        for(CType i = index; i + 1 < length; ++i)\n          dest[i] = dest[i + 1];\n")
r(4, "A02", "DynArray.h", "      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));", "      const CT chunks = _maxChunks(copy._length) / DIV_AMT;\n      for(CT i = 0; i < chunks; ++i)\n        _array[i] = copy._array[i];")
if __name__ == "__main__":
    g = int(sys.argv[1]); only = sys.argv[2:]
    V = os.path.abspath(os.path.dirname(__file__) + "/.."); T = "/tmp/w/rf%d" % g
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    for d in ("include", "bss-util"): shutil.copytree("/repo/" + d, T + "/repo/" + d)
    shutil.copytree(V, T + "/verif", ignore=shutil.ignore_patterns(".git", "out", "evidence", "seeded"))
    props = []
    for gr, ps, f, old, new in R:
        if gr != g: continue
        p = T + "/repo/" + f; s = open(p, encoding="latin-1", newline="").read(); crlf = "\r\n" in s
        if crlf: s = s.replace("\r\n", "\n")
        if s.count(old) < 1: print("NO MATCH", f, old[:60].replace("\n", "|")); continue
        s = s.replace(old, new, 1)
        open(p, "w", encoding="latin-1", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        props += [x for x in ps if x not in props]
    for p in only or props:
        t = time.time(); q = subprocess.run(["python3-vt", "check.py", p, "quick"], cwd=T + "/verif", env=dict(os.environ, VERIF_REPO=T + "/repo"), capture_output=True, text=True, errors="replace")
        print(p, "rc=%d %.0fs" % (q.returncode, time.time() - t), [l[:200] for l in q.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l][:6], q.stderr[-300:] if q.returncode not in (0, 1) else "", flush=True)
