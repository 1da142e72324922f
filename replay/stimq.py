"""run qiskit circuits of H/CX/measure/reset gates on stim's tableau simulator"""
import stim
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, AncillaRegister
def play(sim, qc, off=None, force=None):
    """returns the classical bits; off: qubit index map"""
    m = off or (lambda i: i); bits = [0] * qc.num_clbits
    for ins in qc.data:
        nm = ins.operation.name; q = [m(qc.find_bit(b).index) for b in ins.qubits]; c = [qc.find_bit(b).index for b in ins.clbits]
        if nm in ("h", "x", "y", "z", "s"): getattr(sim, nm)(*q)
        elif nm == "sdg": sim.s_dag(*q)
        elif nm == "id": pass
        elif nm == "cx": sim.cx(*q)
        elif nm == "cz": sim.cz(*q)
        elif nm == "swap": sim.swap(*q)
        elif nm == "measure": bits[c[0]] = int(sim.measure(q[0]))
        elif nm == "reset": sim.reset(*q)
        elif nm == "barrier": pass
        else: raise AssertionError(f"unexpected operation {nm}")
    return bits
def pauli(n, supp, p):
    s = stim.PauliString(n)
    for q in supp: s[int(q)] = p
    return s
