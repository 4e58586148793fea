# Regenerates the "fixed:" lines of known-findings.txt from /repo's log.
import subprocess
W={
"compare graph ids":("C04","nodes of another graph were accepted and nodes of this graph refused: the graph id was negated instead of compared"),
"order every root":("C01","nodes not connected to a graph output could run before their sources"),
"keep the buffers of nodes connected to graph":("C01","a buffer routed to a graph output was reused by a later node of the same block"),
"don't allocate buffer":("C01","a node without outputs got a buffer block that was never returned, others then shared buffers"),
"don't panic on unconnected":("C01","freeing a node behind a summing node panicked when a graph output was not connected"),
"disconnecting a graph input":("C01","disconnecting graph input i also cleared graph output i"),
"disconnecting a graph output":("C01","a disconnected graph output went on sounding until another edit"),
"feedback connections use":("C03","feedback connections returned the wrong channel or silence and were not ordered"),
"feedback connections delay":("C03","feedback delayed by zero or one block depending on creation order"),
"treat freed nodes":("C04","freed nodes waiting to be reclaimed could still be connected, set and found"),
"refuse parameter links":("C04","links to parameters out of bounds or to missing nodes panicked or were accepted"),
"detect cycles":("C04","a cycle through an audio-rate parameter link was accepted"),
"parameter links take":("C10","a parameter link did not take effect until another edit"),
"unlink parameters":("C10","a freed node stayed linked to parameters, which read its returned buffer"),
"removing a summing":("C10","removing a summing node dropped the parameter links behind it"),
"free summing nodes":("C05","summing nodes of replaced connections were never freed"),
"keep changes for the":("C02","an edit committed while the ring to the audio thread was full was lost"),
"every wrapper forwards":("C10","wrappers swallowed audio-rate parameter buffers and in-block delays of the wrapped node"),
"the parameter WrMul":("C10","the parameter index WrMul adds was handed to the wrapped node"),
"free the parent graph":("C12","several nodes finishing in one block: the parent was freed at the last reported frame, not the earliest"),
"frames marked as done":("C12","frames marked in a partial block were relative to the part"),
"parameter smoothing":("C11","smoothing overshot, never ended on its target or used the block rate wrongly"),
"a delay within":("C09","a delay within the block stayed set and delayed later changes too"),
"precise timing applies":("C09","changes due in one block were applied in sent order"),
"keep the operand order":("C14","constant - signal and constant / signal computed signal - constant and signal / constant"),
"integer constants":("C14","integer constants were rounded to f32"),
"every way of setting":("C08","setting a parameter by index did not check the index; the audio thread panicked"),
"scheduled changes are not":("C09","changes due later than a second were discarded"),
"refuse inputs shorter":("C07","AudioProcessor::run read past the end of short input slices"),
"reading or writing outside":("C16","partial and raw blocks reached samples of other channels"),
"replaced buffers go":("C06","replaced buffers were freed on the audio thread"),
"the last reference":("C06","the last reference of a scheduling token was dropped on the audio thread"),
}
exec(open('/verif/tools/fixes_more.py').read())
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[k for k in W if s[5:].startswith(k)]
    assert len(k)==1,(s,k)
    out.append(f"fixed: property={W[k[0]][0]} {h} {W[k[0]][1]}")
f=open('/verif/tools/findings.txt').read()
open('/verif/known-findings.txt','w').write(f+"\n".join(out)+"\n")
print(len(out))
