package vlib

import (
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// PodConditions are the conditions of a running Pod. Only Ready tells whether it is
// ready: when a node is lost, the node controller turns it alone to False.
func PodConditions(ready bool, at time.Time) []corev1.PodCondition {
	r := []corev1.PodCondition{}
	for _, t := range []corev1.PodConditionType{corev1.PodReadyToStartContainers, corev1.PodInitialized, corev1.PodReady, corev1.ContainersReady, corev1.PodScheduled} {
		c := corev1.PodCondition{Type: t, Status: corev1.ConditionTrue}
		if !at.IsZero() {
			c.LastTransitionTime = metav1.NewTime(at.Add(-time.Hour))
		}
		if t == corev1.PodReady {
			if !at.IsZero() {
				c.LastTransitionTime = metav1.NewTime(at)
			}
			if !ready {
				c.Status = corev1.ConditionFalse
			}
		}
		r = append(r, c)
	}
	return r
}
