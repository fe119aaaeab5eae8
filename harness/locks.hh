// Included first in every file of a build that observes locking: lock functions go through the harness (which may let
// other threads act first, or end the calling thread there).
#pragma once
#include <pthread.h>
extern "C" {
int irv_mutex_lock(pthread_mutex_t *m);
int irv_mutex_unlock(pthread_mutex_t *m) noexcept;
int irv_rwlock_wrlock(pthread_rwlock_t *m);
int irv_rwlock_rdlock(pthread_rwlock_t *m);
int irv_rwlock_unlock(pthread_rwlock_t *m) noexcept;
}
#define pthread_mutex_lock irv_mutex_lock
#define pthread_mutex_unlock irv_mutex_unlock
#define pthread_rwlock_wrlock irv_rwlock_wrlock
#define pthread_rwlock_rdlock irv_rwlock_rdlock
#define pthread_rwlock_unlock irv_rwlock_unlock
