S='factory/factorys.go'
I='factory/factoryi.go'
G='factory/factory.go'
C=['C23']
def r(name,*ch): ref(name,C,list(ch))
def b(name,*ch): bad(name,C,list(ch))
ADD='''	me.lock.Lock()
	defer me.lock.Unlock()
	if creater == nil {
		return fmt.Errorf("[factory] nil creater of type %q", typename)
	}
	if _, ok := me.cmap[typename]; ok {
		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
	}
	me.cmap[typename] = creater
	return nil
'''
REM='''	me.lock.Lock()
	defer me.lock.Unlock()
	if _, ok := me.cmap[typename]; !ok {
		return fmt.Errorf("[factory] no creater of type %q", typename)
	}
	delete(me.cmap, typename)
	return nil
'''
CRE='''	me.lock.RLock()
	p, ok := me.cmap[typename]
	me.lock.RUnlock()
	if ok {
		return p.Create(arg...)
	}
	return nil
'''
r('nilfirst',(S,ADD,'''	if creater == nil {
		return fmt.Errorf("[factory] nil creater of type %q", typename)
	}
	me.lock.Lock()
	_, dup := me.cmap[typename]
	if !dup {
		me.cmap[typename] = creater
	}
	me.lock.Unlock()
	if dup {
		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
	}
	return nil
'''))
r('precheck',(S,ADD,'''	if creater == nil {
		return fmt.Errorf("[factory] nil creater of type %q", typename)
	}
	if me.find(typename) != nil {
		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
	}
	me.lock.Lock()
	defer me.lock.Unlock()
	if _, ok := me.cmap[typename]; ok {
		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
	}
	me.cmap[typename] = creater
	return nil
'''),(S,CRE,'''	if p := me.find(typename); p != nil {
		return p.Create(arg...)
	}
	return nil
}

func (me *FactoryS) find(typename string) Creater {
	me.lock.RLock()
	defer me.lock.RUnlock()
	return me.cmap[typename]
'''))
b('norecheck',(S,ADD,'''	if creater == nil {
		return fmt.Errorf("[factory] nil creater of type %q", typename)
	}
	me.lock.RLock()
	_, ok := me.cmap[typename]
	me.lock.RUnlock()
	if ok {
		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
	}
	me.lock.Lock()
	defer me.lock.Unlock()
	me.cmap[typename] = creater
	return nil
'''))
b('rlockadd',(S,ADD,ADD.replace('Lock()','RLock()').replace('Unlock','RUnlock').replace('RURLock','RUnlock').replace('UnRLock','RUnlock')))
r('found',(I,'''	me.lock.RLock()
	p, ok := me.cmap[nType]
	me.lock.RUnlock()
	if ok {
		return p.Create(arg...)
	}
	return nil
''','''	p, ok := me.get(nType)
	if !ok {
		return nil
	}
	return p.Create(arg...)
}

func (me *FactoryI) get(n int) (c Creater, ok bool) {
	me.lock.RLock()
	c, ok = me.cmap[n]
	me.lock.RUnlock()
	return
'''))
b('deferc',(S,CRE,CRE.replace('	me.lock.RUnlock()\n','').replace('RLock()\n','RLock()\n	defer me.lock.RUnlock()\n')))
b('leak',(S,ADD,ADD.replace('	defer me.lock.Unlock()\n','').replace('	me.cmap[typename] = creater\n','	me.cmap[typename] = creater\n	me.lock.Unlock()\n')))
b('leak2',(S,REM,REM.replace('	defer me.lock.Unlock()\n','').replace('	delete(','	me.lock.Unlock()\n	delete(')))
b('wronglock',(S,'	lock sync.RWMutex','	lock sync.RWMutex\n	rl   sync.RWMutex'),(S,CRE,CRE.replace('me.lock','me.rl')))
b('args',(I,'p.Create(arg...)','p.Create(arg)'))
b('args2',(S,'p.Create(arg...)','p.Create(arg[:len(arg):len(arg)/2+len(arg)]...)'))
b('twice',(S,'		return p.Create(arg...)','		p.Create(arg...)\n		return p.Create(arg...)'))
b('overwrite',(S,'	if _, ok := me.cmap[typename]; ok {','	if c, ok := me.cmap[typename]; ok && c != creater {'))
b('nodel',(I,'	delete(me.cmap, nType)','	me.cmap[nType] = nil'))
b('nolock',(S,CRE,CRE.replace('	me.lock.RLock()\n','').replace('	me.lock.RUnlock()\n','')))
b('pkg',(G,'	return g_factory.RemoveCreater(typename)','	g_factory.RemoveCreater(typename)\n	return nil'))
b('pkg2',(G,'	return g_factory.Create(typename, arg...)','	return NewFactoryS().Create(typename, arg...)'))
b('key',(I,'	me.cmap[nType] = creater','	me.cmap[nType&0xffffffff] = creater'))
b('nilok',(S,'''	if creater == nil {
		return fmt.Errorf("[factory] nil creater of type %q", typename)
	}
''',''))
r('embed',(S,'''type FactoryS struct {
	cmap map[string]Creater
	lock sync.RWMutex //protect cmap
}
''','''type FactoryS struct {
	reg *registryS
}

type registryS struct {
	lock sync.RWMutex
	cmap map[string]Creater
}
'''),(S,'&FactoryS{cmap: make(map[string]Creater)}','&FactoryS{reg: &registryS{cmap: map[string]Creater{}}}'),(S,ADD,ADD.replace('me.','me.reg.')),(S,REM,REM.replace('me.','me.reg.')),(S,CRE,CRE.replace('me.','me.reg.')))
r('mutex',(S,'sync.RWMutex','sync.Mutex'),(S,CRE,CRE.replace('RLock','Lock').replace('RUnlock','Unlock').replace('RULock','Unlock')))
b('sharedreg',(S,'	return &FactoryS{cmap: make(map[string]Creater)}','	return &FactoryS{cmap: reg}'),(S,'type FactoryS','var reg = make(map[string]Creater)\n\ntype FactoryS'))
b('stalecache',(S,'	lock sync','	last Creater\n	lname string\n	lock sync'),(S,CRE,'''	me.lock.RLock()
	p, ok := me.cmap[typename]
	if me.lname == typename {
		p = me.last
	}
	me.lock.RUnlock()
	if ok {
		return p.Create(arg...)
	}
	return nil
'''),(S,'	me.cmap[typename] = creater\n','	me.cmap[typename] = creater\n	me.last, me.lname = creater, typename\n'))
