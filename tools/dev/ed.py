def rep(path,*pairs):
    s=open(path,encoding='utf-8').read()
    for o,n in pairs:
        assert s.count(o)==1,(s.count(o),o)
        s=s.replace(o,n)
    open(path,'w',encoding='utf-8').write(s)
