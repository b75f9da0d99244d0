exec(open('/tmp/B7.py').read())
def ex(x): return x.replace("round(xy[0], 2)","xy[0]").replace("round(xy[1], 2)","xy[1]")
B=[(n+'ok',p,f,[(a,ex(b)) for a,b in ed]) for n,p,f,ed in B]
