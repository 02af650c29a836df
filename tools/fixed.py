"""write the 'fixed:' lines of known-findings.txt from the fix commits of the repository"""
import subprocess
import sys
MAP = """2bdd371 C27;99aa620 C03;9f94080 C03;ab68b5c C03;ac37a2d C04;4de8bfa C04;f2bd413 C04;a4ebc0c C02;b9708f3 C06;9ad7b4e C05;8506fe1 C33
ea84479 C33;3782066 C06;0dc6a95 C33;9c7b47d C33;cd3739c C04;0d5f0ee C06;7f72db6 C33;5949307 C06;d56ef44 C07;3597f64 C09;2b8307e C09
154f418 C31;bde2066 C10;343ad67 C13;58096fc C11;b873939 C11;4ce401b C12;2f4711c C30;42eefc4 C12;fe6db64 C12;732e09e C13;571640d C14
71f6e34 C13;cd274a6 C13;b6c266e C16;7e7dddc C15;6dab4ca C16;b18320a C30;6ab92fc C17;cb53c48 C17;322f41a C18;3473951 C18;92f1b70 C17
9ce9e08 C18;b9698b0 C20;1fda2c1 C17;53e0b42 C20;4a32ab0 C17;173b2db C18;aa75f6f C24;39bbb90 C21;9f5cf10 C24;dbe33ca C24;f0f3469 C24
d3da0cb C24;1493765 C24;a7c60d4 C20;1e73125 C24;67d6bbd C28;1983272 C22;25b7e5c C22;ed91fa9 C23;ed28bee C23;01a1a53 C23;dd1dfd5 C20
0f4c995 C23;63e6570 C22;bea700e C23;b7ea39d C23;f24cccb C25;29ab216 C01;20a606e C27;462ef39 C07;a6676d6 C28;41e6770 C28;5b79d30 C02
7602eab C24;1a37443 C33;f25f9a8 C30;8df006d C32;7c3f3bb C32;f9e091a C31;bc06d1e C29;4e1fabc C34;9804274 C34;070969b C34;a3112db C35;5089002 C35;341b13a C09;7990a50 C10;258d700 C36;dceb1c4 C36;f54d0ea C36;6310932 C36;f86704a C13;0459fb1 C13;af08d00 C39;345bd87 C39;15fac13 C38;fd5ae66 C38;d1b3434 C12;a1111ca C12;058975a C28;9b9c0c0 C17;ce80376 C26;3e11db3 C28;6ee7039 C09;6ac2af6 C09;679d43a C06;4e3b99e C02"""
m = dict(w.split() for w in MAP.replace("\n", ";").split(";"))
m.update(a.split(":") for a in sys.argv[2:])
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
out = subprocess.run(["git", "-C", repo, "log", "--reverse", "--format=%h %s", "3f3ebff.."], capture_output=True, text=True).stdout
lines = [l for l in open("/verif/known-findings.txt") if not l.startswith("fixed:")]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if h not in m:
            print("no property for", l)
            continue
        lines.append("fixed: property=%s %s %s\n" % (m[h], h, s[5:]))
open("/verif/known-findings.txt", "w").writelines(lines)
