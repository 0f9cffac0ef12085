# Generates arm.urdf: a small mobile manipulator (wheels, prismatic joint, sphere collisions) used by the simulations
links=[]; joints=[]
def link(n,m,r,com=(0,0,0),sphere=None):
    i=0.4*m*r*r
    c=f'<collision><origin xyz="{sphere[1]} {sphere[2]} {sphere[3]}" rpy="0 0 0"/><geometry><sphere radius="{sphere[0]}"/></geometry></collision>' if sphere else ''
    links.append(f'<link name="{n}"><inertial><origin xyz="{com[0]} {com[1]} {com[2]}" rpy="0 0 0"/><mass value="{m}"/><inertia ixx="{i}" ixy="0" ixz="0" iyy="{i*1.1}" iyz="0" izz="{i*0.9}"/></inertial>{c}</link>')
def joint(n,t,p,c,xyz,rpy,axis,lo,hi,v,e):
    lim=f'<limit lower="{lo}" upper="{hi}" velocity="{v}" effort="{e}"/><axis xyz="{axis}"/>' if t!='fixed' else ''
    joints.append(f'<joint name="{n}" type="{t}"><parent link="{p}"/><child link="{c}"/><origin xyz="{xyz}" rpy="{rpy}"/>{lim}</joint>')
link("base",6,0.15,(0.01,0,0.05),(0.12,0,0,0.05))
link("pan",1.2,0.06,(0,0.01,0.05))
link("upper",1.0,0.08,(0.12,0,0),(0.05,0.15,0,0))
link("fore",0.8,0.08,(0.1,0.01,0),(0.045,0.14,0,0))
link("wrist",0.4,0.05,(0.03,0,0))
link("hand",0.3,0.05,(0.05,0,0.01),(0.05,0.05,0,0))
link("slider",0.2,0.03,(0.02,0,0))
link("tool",0.001,0.01)
link("tip",0.001,0.01)
link("wl",0.5,0.08); link("wr",0.5,0.08)
joint("pan","revolute","base","pan","0.05 0 0.15","0 0 0","0 0 1",-2.6,2.6,3,30)
joint("lift","revolute","pan","upper","0 0 0.1","0 0 0","0 1 0",-2.2,1.2,3,30)
joint("elbow","revolute","upper","fore","0.3 0 0","0 0 0","0 1 0",-0.2,2.5,4,20)
joint("wrist1","revolute","fore","wrist","0.28 0 0","0 0 0","1 0 0",-2,2,5,10)
joint("wrist2","revolute","wrist","hand","0.08 0 0","0 0 0","0 1 0",-1.8,1.8,5,10)
joint("slide","prismatic","hand","slider","0.1 0 0","0 0 0","1 0 0",-0.05,0.15,0.5,40)
joint("tool_frame","fixed","slider","tool","0.05 0 0.02","0 0.3 0","",0,0,0,0)
joint("tip_frame","fixed","hand","tip","0.1 0.02 0","0 0 0.4","",0,0,0,0)
joint("wheel_left","revolute","base","wl","0 0.2 0","-1.5707963267948966 0 0","0 0 1",-1000,1000,30,8)
joint("wheel_right","revolute","base","wr","0 -0.2 0","-1.5707963267948966 0 0","0 0 1",-1000,1000,30,8)
open(__file__.rsplit("/",1)[0]+"/arm.urdf","w").write('<?xml version="1.0"?>\n<robot name="arm">\n'+"\n".join(links+joints)+"\n</robot>\n")
