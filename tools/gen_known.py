import subprocess
props={'dfasyn wrote beyond':'C21','dfasyn crashed on a tag':'C21','dfasyn took ?':'C21','dfasyn failed on character':'C21','dfasyn used freed':'C21','dfasyn ran out of memory':'C21','dfasyn wrote outside':'C21','undefined shift in dfasyn':'C21',"dfasyn's tables could":'C21','dfasyn crashed when':'C21','dfasyn kept a pointer':'C21','attachment headers with 8-bit':'C12','crash when there is no home':'C11','text after a null':'C12','IMAP search results could':'C07','flags were taken from the name of':'C03','an mbox separator whose address has a one':'C13','search results could be written over':'C07','an attachment without a Content-Type':'C12','a multipart boundary followed':'C12','an attachment named by':'C12','matches that could not':'C19','running out of space':'C19','p: combined':'C01','relative dates':'C03','d:<period>':'C03','z: sizes':'C03','-t after a purge':'C04','-t must not pull':'C04','sort=date':'C08','p: searches aborted':'C11','-a must not':'C08','copies of mbox':'C08','folder patterns':'C14','reading compressed':'C11','quoted-printable':'C11','uuencoded':'C12','deeply nested':'C11','huge error':'C11','MAIRIX_MAILDIR':'C17','rc files with':'C11','a shortened':'C11','the state of an empty':'C11','the date and flags':'C15','changes to mboxes':'C05','changes to an mbox message':'C05','an mbox message that grew':'C05','message files that changed':'C05','a lock that':'C10','bad %-esc':'C11','no warning':'C09','stale mbox':'C09','signals while':'C10','SIGTERM':'C10','a signal could':'C10','words split over':'C12','an RFC 2231':'C12','attachment names with':'C12','only the first stream':'C13','files that are no database':'C15','untagged IMAP':'C16','an IMAP conn':'C16','backslash':'C16','large numbers from an IMAP':'C16','local matches were':'C16','IMAP messages':'C16','message files that could not be read':'C18','the size of IMAP':'C16','an IMAP folder':'C16','an mbox that could':'C18','an mbox that vanished':'C18'}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--oneline'],text=True).splitlines():
    h,_,s=l.partition(' ')
    if not s.startswith('fix: '): continue
    s=s[5:]
    c=[v for k,v in props.items() if s.startswith(k)]
    assert len(c)==1,(s,c)
    out.append("fixed: property=%s %s %s"%(c[0],h,s))
open('/verif/known-findings.txt','w').write("# finding: property=<id> key=<violation key> -- <what fails>   (suppresses exactly that key)\n# fixed: property=<id> <commit> <what failed>              (suppresses nothing)\n"+"\n".join(out)+"\n")
