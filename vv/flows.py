"""A small library of flows (Lua text), by name. Each is set up but not run; the
caller appends times and simulate()."""

FLOWS = {
    "empty": "S.re=100 S.inf_vx='1'\n",
    "vortices": """
S.re=100 S.inf_vx='1' S.inf_vy='0.5*t'
for i=1,30 do S.vort_list:append{math.cos(i*i)*2, math.sin(i*i*3), math.cos(i)*0.1} end
""",
    # two distant clouds, each of one sign
    "clouds": """
S.re=200 S.inf_vx='0.5'
for i=1,60 do
  local k=i%2
  S.vort_list:append{40*k+math.cos(i*i), 25*k+math.sin(i*i*3), 0.5+0.1*math.cos(i)}
end
S.sink_list:append{3,4,0.5}
""",
    "inviscid": """
S.re=inf S.inf_vx='1'
S.body_list:insert(gen_cylinder{R=0.5,N=14})
for i=1,10 do S.vort_list:append{-2-0.1*i, math.sin(i*i*3), math.cos(i)*0.1} end
""",
    "cylinder": """
S.re=100 S.inf_vx='1'
S.body_list:insert(gen_cylinder{R=0.5,N=16})
""",
    "streaks": """
S.re=200 S.inf_vx='1'
local b=gen_cylinder{R=0.5,N=16}
S.body_list:insert(b)
for i=1,7 do S.streak_source_list:append{-0.8, 0.15*(i-4), 1} end
S.sink_list:append{2, 1, -0.3}
""",
    "rotating": """
S.re=150 S.inf_vx='sin(t)' S.gravity={0,-1}
local b=gen_cylinder{R=0.4,N=14}
b.holder_vo='2*cos(3*t)'
S.body_list:insert(b)
local p=gen_plate{R1=0.1,R2=0.1,L=0.6,N=12}
p:move_r{2,0.2} p:move_d(30)
p.holder_vy='0.3*sin(5*t)'
p.holder_vo='0.5'
S.body_list:insert(p)
""",
    "spring": """
S.re=100 S.inf_vx='1' S.gravity={0,-0.5}
local b=gen_cylinder{R=0.5,N=14}
b.spring_const={1,2,0.5} b.spring_damping={0.1,0,0} b.density=2
S.body_list:insert(b)
""",
    "joint": """
S.re=100 S.inf_vx='1'
local a=gen_cylinder{R=0.4,N=12}
a.holder_vo='1'
a.label='hub'
local p=gen_plate{R1=0.1,R2=0.1,L=0.6,N=12}
p:move_r{1.2,0}
p.root=a p.spring_const={inf,inf,0.3} p.density=3
S.body_list:insert(a) S.body_list:insert(p)
""",
    "slip": """
S.re=100 S.inf_vx='1'
local a=gen_cylinder{R=0.4,N=12}
a.slip=true
S.body_list:insert(a)
local b=gen_cylinder{R=0.3,N=12}
b:move_r{1.5,0.2}
b.special_segment=3
S.body_list:insert(b)
""",
    "stop": """
S.re=100 S.inf_vx='1'
local b=gen_cylinder{R=0.5,N=12}
b.spring_const={0,inf,inf} b.density=1.5
b.collision_max={0.06,inf,inf} b.collision_min={-0.05,-inf,-inf} b.bounce=0.5
S.body_list:insert(b)
""",
    "three": """
S.re=300 S.inf_vx='1' S.inf_g=0.2
for i=0,2 do
  local b=gen_cylinder{R=0.3,N=10}
  b:move_r{1.2*i,0.1*i}
  if i==1 then b.holder_vx='0.2*sin(4*t)' end
  if i==2 then b.spring_const={inf,1,inf} end
  S.body_list:insert(b)
end
S.vort_list:append{-1.5,0.1,0.3}
""",
}
