F='math/prime/prime.go'
LOOP='''	max := SqrtUint32(num)
	for i := 2; i < len(g_primes); i++ {
		prime := g_primes[i]
		if prime > max {
			break
		}
		if num%prime == 0 {
			return false
		}
	}
	return true
'''
ref('range',['C12'],[(F,LOOP,'''	max := SqrtUint32(num)
	for _, prime := range g_primes[2:] {
		if prime > max {
			return true
		}
		if num%prime == 0 {
			return false
		}
	}
	return true
''')])
ref('square',['C12'],[(F,LOOP,'''	for _, prime := range g_primes[2:] {
		if prime*prime > num {
			break
		}
		if num%prime == 0 {
			return false
		}
	}
	return true
''')])
ref('square64',['C12'],[(F,LOOP,'''	for i := 2; i < len(g_primes) && uint64(g_primes[i])*uint64(g_primes[i]) <= uint64(num); i++ {
		if num%g_primes[i] == 0 {
			return false
		}
	}
	return true
''')])
ref('helper',['C12'],[(F,LOOP,'''	return !hasFactor(num, SqrtUint32(num))
'''),(F,'func step(','''func hasFactor(num, max uint32) bool {
	for i := 2; i < len(g_primes) && g_primes[i] <= max; i++ {
		if num%g_primes[i] == 0 {
			return true
		}
	}
	return false
}

func step(''')])
ref('all',['C12'],[(F,'''	mod := num % 6
	if mod != 1 && mod != 5 {
		return false
	}
''','''	if num%2 == 0 || num%3 == 0 {
		return false
	}
''')])
ref('nowheel',['C12'],[(F,'''	if num == 2 || num == 3 {
		return true
	}
	mod := num % 6
	if mod != 1 && mod != 5 {
		return false
	}
	max := SqrtUint32(num)
	for i := 2; i < len(g_primes); i++ {
		prime := g_primes[i]
		if prime > max {
			break
		}
''','''	if num <= 3 {
		return num > 1
	}
	max := SqrtUint32(num)
	for i := 0; i < len(g_primes); i++ {
		prime := g_primes[i]
		if prime > max {
			break
		}
''')])
ref('inline-step',['C12'],[(F,'''		step(i, &val, &sqrtVal)
''','''		magic := uint32(0x40000000) >> i
		t := magic + sqrtVal
		sqrtVal >>= 1
		if t <= val {
			val -= t
			sqrtVal |= magic
		}
''')])
bad('brk',['C12'],[(F,'if prime > max {','if prime >= max {')])
bad('start3',['C12'],[(F,'i := 2; i < len','i := 3; i < len')])
bad('len1',['C12'],[(F,'i < len(g_primes)','i < len(g_primes)-2')])
bad('tab',['C12'],[('math/prime/prime_data.go','65497, 65519,','65497,')])
bad('sq',['C12'],[(F,'i <= 30','i <= 28')])
bad('nodec',['C12'],[(F,'num < 2','num < 1')])
