T='src/trigonometry.rs'
X='src/fixed_impl.rs'
FL='src/float_impl.rs'
I='src/int_impl.rs'
LOOP='''    let mut temp:T = base;
    for _i in 0..power-1 {
        temp = temp*base;
    }
    return temp;'''
EDITS=[
dict(id='powi-rec2',props=['C10','C13'],edits=[(T,LOOP,'''    if power <= 1 { return base; }
    powi(base, power-1)*base''')]),
dict(id='powi-rev',props=['C10'],edits=[(T,LOOP,'''    let mut temp:T = base;
    for _i in (1..power).rev() {
        temp = temp*base;
    }
    return temp;''')]),
dict(id='powi-count',props=['C10'],edits=[(T,LOOP,'''    let mut left = power;
    let mut temp:T = base;
    loop {
        left -= 1;
        if left == 0 { return temp; }
        temp = base*temp;
    }''')]),
dict(id='powi-fold',props=['C10'],edits=[(T,LOOP,'''    (1..power).fold(base, |acc, _| acc*base)''')]),
]
