#!/usr/bin/env python3
"""Writes regress/<ID>/*.json: one pinned case per repaired defect (named after its fix commit)."""
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def P(*a): return [dict(is_public=s.startswith('!'),regex_def=s.lstrip('!')) for s in a]
def b(*a): return [list(x.encode('latin1')) for x in a]
def job(raw,source,**k):
    d=dict(raw=raw,source=source,substrs=None,halo2=True,circom=True,template='T',gen_substrs=True); d.update(k); return d
R=[]
def r(pid,commit,case): R.append((pid,commit,case))
msg=lambda parts,*m,n=0: dict(parts=parts,n=n,msgs=b(*m))
shape=lambda parts,*m,raw=False,g=True,tr=[],n=6: dict(parts=parts,raw=raw,gen_substrs=g,transitions=tr,n=n,msgs=b(*m))
r('C02','db47764',dict(parts=P('([^a]|^)b','c')))
r('C05','db47764',dict(parts=P('!([^x])b'),raw=False,end=False,n=6,msgs=b('ab','cab','b')))
r('C02','d746193',dict(parts=P('(ab*|^)c')))
r('C03','70954e8',msg(P('A','A','(?:0A|A|aAA)','[a]*A'),'AA0AaA'))
r('C02','70954e8',dict(parts=P('[\\t]\\t\\t[^\\t]','[\\t]*')))
r('C03','1b7696a',msg(P('\\$','\\$'),'$$'))
r('C01','e12d8b4',dict(regex='ab|cb',raw=True)); r('C01','e12d8b4',dict(regex='a|b',raw=True))
r('C17','9eef88d',dict(job=job(False,'{"parts":[]}'),dirty=False))
r('C05','15b30ec',dict(parts=P('ab'),raw=True,end=False,n=5,msgs=b('ab','xab','abx')))
r('C07','5573cd4',shape(P('ab','!c'),'abc',g=False)); r('C07','5573cd4',shape(P('ab'),'ab',g=None))
r('C11','a66c580',dict(regex='ab',picks=[[]],n=4,msgs=b('ab','xab')))
r('C11','70e072c',dict(regex='ab',picks=[],n=4,msgs=b('ab','xab')))
r('C17','94efc07',dict(job=job(False,'{"parts":[{"is_public":true,"regex_def":"a"}]}',template=None),dirty=False))
r('C06','d869161',dict(start=False,parts=P('a','!b'),raw=False,end=True,n=3,msgs=b('xab','ab','aba')))
r('C06','39e8ddd',dict(start=False,parts=P('a','!b'),raw=False,end=True,n=6,msgs=b('abxab','ab')))
r('C12','99c86c3',dict(parts=P('(a|b)=','!(c)+','\\(','!d'),texts=['xa=cc(d','b=c(d'])) 
r('C11','01a3d91',dict(regex='ab',picks=[[0],[1]],n=4,msgs=b('ab')))
r('C18','7f10305',dict(job=job(True,'ab'),short=True,dirty=False)); r('C18','7f10305',dict(job=job(False,'{"parts":[{"is_public":true,"regex_def":"ab"}]}'),short=True,dirty=False))
r('C17','c3c0bbb',dict(job=job(False,'{"parts":[{"is_public":true,"regex_def":"a)(b"}]}'),dirty=False)); r('C17','c3c0bbb',dict(job=job(True,'a)(?:b'),dirty=False))
r('C07','b976dd1',shape(P('a[b\\x00]c','\\x00d'),'abc'))
r('C07','b976dd1',shape(P('a\\x00b'),'ab'))
r('C17','086986d',dict(job=job(True,'[a&&b]'),dirty=False))
r('C01','74e8e96',dict(regex='ab?',raw=True)); r('C17','74e8e96',dict(job=job(True,'ab?',circom=False),dirty=False))
r('C10','daf4f1d',dict(parts=P('!a+b','c'),words=b('aabc')))
r('C07','a02f1db',shape(P('\\x00a'),'a'))
r('C14','c0d0240',dict(kind='from_addr',text='from:A@A\r\nto:A@A\r\n',want=[5,8]))
r('C14','c0d0240',dict(kind='to_addr',text='to:A@A\r\nfrom:A@A\r\n',want=[3,6]))
r('C08','5f0e578',dict(parts=P('a'),gen_substrs=False,msg=[97,-1]))
r('C17','24edd61',dict(job=job(False,json.dumps(dict(parts=P('[a&&b]','a')))),dirty=True))
r('C17','24edd61',dict(job=job(False,json.dumps(dict(parts=P('a','b^','a')))),dirty=True))
r('C12','fd2ecdc',dict(parts=P('(?i)ab','!b+','c'),texts=['abBbc','xAbbC','ABbc']))
r('C13','fd2ecdc',dict(parts=P('!(?i)a','a+z','(?i)x'),texts=['aAazX']))
look=lambda parts,*m,raw=False: dict(parts=parts,raw=raw,msgs=b(*m))
r('C23','58a5e2c',look(P('((a|^)b|z)a'),'b','xa','a')); r('C23','58a5e2c',look(P('(^ab|x)c'),'abc','zabc','c'))
r('C23','0861275',look(P('x','^ab'),'xab')); r('C23','0861275',look(P('ab\\z'),'abx',raw=True)); r('C23','0861275',look(P('a(?-u:\\b)','b'),'ab'))
r('C23','0861275',look(P('x(a|b$)'),'xbz')); r('C23','0861275',look(P('(^b$|^|aba)aa'),'baa'))
r('C23','dbf241d',look(P('$'),'a')); r('C23','dbf241d',look(P('()$'),'a',raw=True))
coh=lambda parts,flip,*m,n=0: dict(parts=parts,n=n,msgs=b(*m),flip=flip)
r('C24','870d940',coh(P('!a*','[^a]|a'),[True,True],'a')); r('C24','870d940',coh(P('[^a]','!.[aaa-b]|a.(?:[^a]aa|a)','a','a'),[False,True,False,True],'xyaaa','baaaaa'))
for pid,c,case in R:
    d=f'{root}/regress/{pid}'; os.makedirs(d,exist_ok=True)
    i=0
    while (pid,c,i) in globals().setdefault('seen',set()): i+=1
    seen.add((pid,c,i))
    json.dump(dict(what=f'repaired by {c}',case=case),open(f'{d}/{c}-{i}.json','w'),indent=1,ensure_ascii=False)
    open(f'{d}/{c}-{i}.json','a').write('\n')
