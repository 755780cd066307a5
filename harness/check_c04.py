import check_c02


def run(chk):
    check_c02.run(chk, scope="C04")
